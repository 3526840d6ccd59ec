"""P25: two networks are equal exactly when they have the same configuration, the
same nodes and layers (and layer membership) and the same links with the same weights."""
from .world import *
from .links import meth, report
from .edges import undirected_once

LEVEL = "other"
C2 = Sym("c2", "weight")
NE2 = Sym("noEdge2", "weight")


def small(fl, spec, tag, base=None, empty=False):
    """two nodes (and two layers); links and membership arbitrary; the weights of
    the second network equal those of the first or not"""
    cls, aspects, directed, full, coupling = spec[:5]
    i, j = names(fl, "i", "j")
    s, u = names(fl, "s", "u")
    t, = names(fl, "t")
    if cls == "ML":
        w = MLWorld(fl, aspects, directed, full, tag=tag)
    else:
        w = MXWorld(fl, [coupling] * aspects, directed, full, tag=tag)
    late = len(spec) > 7 and spec[7]
    rest = ((), (s,), (t, s) if late else (s, t))[aspects]
    rest2 = ((), (u,), (t, u) if late else (u, t))[aspects]
    w.focus = [(i,) + rest, (j,) + rest] + ([(i,) + rest2] if aspects else [])
    w.others = False
    w.exact = True
    w.grid = list(w.focus) + ([(j,) + rest2] if aspects else [])
    if empty:
        w.focus = w.focus[:1]
        w.grid = w.grid[:1]
        fl.facts[(tag, "row", key(w.grid[0]))] = False
    for x in w.grid:
        if x[0] == i and x[1:] == rest:
            for a, e in enumerate(x):
                w.assume(True, "in", a, key(e))
    # the first layer exists; the second may
    if aspects and not full:
        w.assume_member(i, w.lay(w.grid[0]))
    for x in w.grid[2:] if cls == "ML" else ():
        w.assume(False, "row", key(x))
    if base is not None:
        def weight(a, b, w=w):
            v0 = base.weight(a, b)
            if fl.choose(("same weight", v0.name)):
                return v0
            return World.weight(w, a, b)
        if cls == "ML":
            w.weight = weight
    return w


def content(fl, w):
    r = {}
    g = w.grid
    for x in g:
        for y in g:
            if isinstance(w, MXWorld):
                if x[1:] == y[1:] and x[0] != y[0] and all([w.is_in(a, e) for a, e in enumerate(x) if a]):
                    lw = w.layer_world(w.lay(x))
                    if lw.row(x[:1]) and lw.row(y[:1]) and lw.link(x[:1], y[:1]):
                        r[(key(x), key(y))] = lw.weight(x[:1], y[:1])
            elif not w.directed and (key(y), key(x)) in r:
                pass
            elif w.row(x) and w.row(y) and w.link(x, y):
                r[(key(x), key(y))] = w.weight(x, y)
    return r


def registered(fl, w):
    r = []
    for a in range(w.aspects + 1):
        for e in w.names_of(a):
            if w.is_in(a, e):
                r.append((a, key(e)))
    if w.aspects and not w.full:
        for x in w.grid:
            if w.member(x[0], w.lay(x)):
                r.append(("nl", key(x)))
    return sorted(set(map(str, r)))


def scenario(spec, diff):
    def sc(fl):
        a = small(fl, spec, "A", empty=diff is not None)
        spec2 = list(spec)
        if diff == "directed":
            spec2[2] = not spec[2]
        elif diff == "full":
            spec2[3] = not spec[3]
        elif diff == "class":
            spec2[0], spec2[4] = ("MX", ("none",)) if spec[0] == "ML" else ("ML", None)
        elif diff == "coupling":
            spec2[4] = ("categorical", C2)
        elif diff == "aspects":
            spec2[1] = spec[1] - 1
        b = small(fl, tuple(spec2), "B", a if diff is None else None, empty=diff is not None)
        r = {}
        if diff == "noEdge":
            b.net.attrs["noEdge"] = NE2
        try:
            if isinstance(a, MXWorld):
                for x in a.grid:
                    for w in (a, b):
                        if isinstance(w, MXWorld) and all([w.is_in(q, e) for q, e in enumerate(x) if q]):
                            lw = w.layer_world(w.lay(x))
                            lw.assume(False, *lw.lk(x[:1], x[:1]))
                            if w is b and diff is None:
                                share(fl, lw, a, w.lay(x))
            r["eq"] = fl.truth(meth(fl, a.net, "__eq__", b.net))
            r["ne"] = fl.truth(meth(fl, a.net, "__ne__", b.net))
            if diff is not None:
                want = False
            else:
                want = registered(fl, a) == registered(fl, b) and content(fl, a) == content(fl, b)
            r["want"] = want
        except PyRaise as e:
            r["raise"] = "%s (%s) at %s" % (e.name, e.msg, e.where)
        a.consistent()
        b.consistent()
        return r
    return sc


def share(fl, lw, a, lay):
    if getattr(lw, "shared", False):
        return
    lw.shared = True
    if not all([a.is_in(q + 1, e) for q, e in enumerate((lay,) if a.aspects == 1 else lay)]):
        return
    other = a.layer_world(lay)

    def weight(x, y):
        v0 = other.weight(x, y)
        if fl.choose(("same weight", v0.name)):
            return v0
        return World.weight(lw, x, y)
    lw.weight = weight


def run(job):
    fl = Flow(_PKG[0])
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(scenario(*job)):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        b = None
        if "raise" in r:
            b = "an exception is raised: " + r["raise"]
        elif r["eq"] != r["want"]:
            b = "networks that %s compare %s%s" % ("have the same content" if r["want"] else "differ", "equal" if r["eq"] else "different",
                                                   " (they differ in %s)" % job[1] if job[1] else "")
        elif r["ne"] == r["eq"]:
            b = "== and != give the same answer"
        if b:
            bad.append((b, sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=("P25",) + job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    jobs = []
    for s in SPECS:
        diffs = [None, "directed", "noEdge", "class"]
        if s[1]:
            diffs += ["full", "aspects"]
        if s[0] == "MX" and s[4] == CAT:
            diffs.append("coupling")
        if s[1] == 0:
            diffs.remove("class")
        if s[0] == "MX" and s[1] == 1:
            diffs.remove("aspects")
        if s[0] == "MX" and s[1] == 2:
            diffs.remove("aspects")
        if tier != "thorough" and s[2] and (s[0] == "MX" or not s[3]) and s[:5] not in (
                ("ML", 1, True, False, None), ("MX", 1, True, False, ("none",))):
            diffs.remove(None)
        if tier != "thorough" and s[0] == "MX" and (s[1] == 2) == (s[4] == CAT) and None in diffs:
            diffs.remove(None)
        for d in diffs:
            jobs.append((s, d))
    for s in LATE:
        if tier == "thorough" or (not s[2] and s[4] != CAT):
            jobs.append((s, None))
    jobs.sort(key=lambda j: (j[1] is not None, not j[0][2], j[0][3]))
    rs = pmap(run, jobs)
    report(res, rs, "equality")
    res.rule = "== is true exactly when configuration, registrations and links with weights coincide; != is its negation"
    res.explanation = ("Abstract interpretation of the comparison of two networks with arbitrary, independent contents over representative "
                       "node-layers; weights of corresponding links equal or different.")
    return res
