"""python3 -m sa.check P01 [--tier quick|thorough]

Exit 0: the property holds on everything analysed.  Exit 1: violations, each
with a VIOLATION line.  Any other exit: the analysis could not answer."""
import sys, os, json, time, importlib, hashlib, traceback
from .model import Package, AnalysisError, REPO
from . import flow

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")
RULES = {
    "P01": "mutation", "P02": "mutation", "P03": "sharing", "P16": "itermut",
    "P11": "restore", "P20": "seeds", "P10": "lookups", "P04": "derive", "P23": "derive", "P05": "links", "P06": "links", "P08": "registry", "P24": "edges", "P25": "equality", "P27": "derived", "P12": "isom", "P07": "queries", "P09": "queries", "P15": "diag", "P17": "gener", "P18": "cluster", "P14": "enumer", "P13": "nxview",
}


class Finding(object):
    def __init__(self, key, message, where, function="", path=()):
        self.key, self.message, self.where, self.function, self.path = key, message, where, function, list(path)

    def as_dict(self):
        return {"key": self.key, "message": self.message, "where": self.where, "function": self.function, "path": self.path}


class Result(object):
    def __init__(self):
        self.findings = []
        self.counts = {}
        self.explanation = ""
        self.rule = ""
        self.notes = []

    def add(self, key, message, where, function="", path=()):
        if any(f.key == key for f in self.findings):
            return
        self.findings.append(Finding(key, message, where, function, path))

    def floor(self, name, n):
        """the number of instances confirmed by hand; fewer means the rule lost its subject"""
        if self.counts.get(name, 0) < n:
            raise AnalysisError("only %s %s found, at least %d expected: the rule has lost its anchor"
                                % (self.counts.get(name, 0), name, n))


def known(prop):
    """{key: description} of the committed known findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                f = line.split(None, 3)
                if f[1] == "property=" + prop and f[2].startswith("key="):
                    out[f[2][4:]] = f[3] if len(f) > 3 else ""
    return out


def main(argv=None):
    argv = list(argv or sys.argv[1:])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    flow.DEADLINE[0] = t0 + (620 if tier == "quick" else 3000)
    if prop not in RULES:
        print("unknown property", prop); return 2
    try:
        mod = importlib.import_module("sa.rules." + RULES[prop])
        pkg = Package()
        res = mod.check(prop, pkg, tier)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e)); return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop); return 2
    kn = known(prop)
    new = [f for f in res.findings if f.key not in kn]
    old = [f for f in res.findings if f.key in kn]
    for f in old:
        print("KNOWN-FINDING: property=%s %s [%s at %s]" % (prop, kn[f.key] or f.message, f.key, f.where))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, "replay-%s.json" % prop)
    if new:
        with open(rep, "w") as fh:
            json.dump({"property": prop, "rule": res.rule, "violations": [f.as_dict() for f in new],
                       "replay": "cd %s && python3 -m sa.check %s --tier %s" % (HERE, prop, tier)}, fh, indent=1)
    elif os.path.exists(rep):
        os.unlink(rep)
    for f in new:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        print("  %s: %s" % (f.where, f.message))
        for p in f.path[:12]:
            print("      via %s" % (p,))
    cov = {"explanation": res.explanation}
    cov.update(res.counts)
    cov["package"] = pkg.stats()
    cov["known_findings"] = len(old)
    if res.notes:
        cov["notes"] = res.notes[:60]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "rule": res.rule}
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("property=%s tier=%s violations=%d known=%d %s (%.1fs)" % (
        prop, tier, len(new), len(old), " ".join("%s=%s" % kv for kv in sorted(res.counts.items()) if not isinstance(kv[1], (list, dict)))[:300], time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
