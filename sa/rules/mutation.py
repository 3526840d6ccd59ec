"""P01: no function modifies a network it is given (unless documented).
P02: no function modifies any other caller-owned object, a shared default
value or module-level state."""
from .effects import (entries, analyse, base, IN_PLACE, MUTATORS, IGNORED_WRITES, NETLISTS, short)
from ..model import AnalysisError
from ..par import pmap

LEVEL = "other"
# module-level state that is rebound on purpose
STATE_OK = {}


def is_mutator(e):
    return e[0] == "method" and (e[1].rpartition(".")[2] in MUTATORS or
                                 (e[1].rpartition(".")[2].startswith("_") and not e[1].rpartition(".")[2].startswith("__")))


def run(pkg, tier, post=None, keep=None):
    k = 2 if tier == "quick" else 3
    I = base(k)
    es = [e for e in entries(I.pkg) if (keep is None or keep(e))]
    budget = 22000 if tier == "quick" else 60000
    return pmap(lambda e: analyse(e, k, budget=budget, post=post), es)


def split(r):
    """events of one entry point -> (kind, origin, event) with kind net/other"""
    e = r["entry"]
    nets = set(r["net_labels"]) | {"self"}
    for v in r["events"]:
        o = v["origin"]
        yield ("net" if o in nets or o in NETLISTS else "other"), o, v


def check(prop, pkg, tier):
    from ..check import Result
    res = Result()
    rs = run(pkg, tier)
    exempt_seen = set()
    incomplete = []
    n_entries = 0
    n_checked_params = 0
    reached = set()
    sites = 0
    for r in rs:
        e = r["entry"]
        reached.update(r["reached"])
        sites += r["call_sites"]
        if not r["complete"]:
            incomplete.append("%s (%s)" % (e[1], short(e[3])))
            continue
        n_entries += 1
        for kind, o, v in split(r):
            if (e[1], o) in IN_PLACE:
                exempt_seen.add((e[1], o)); continue
            if (v["op"], v["field"]) in IGNORED_WRITES:
                continue
            if prop == "P01":
                if kind != "net" or (o == "self" and is_mutator(e)):
                    continue
                if is_mutator(e) and not e[1].startswith("pymnet.net.") and not e[1].endswith("__init__"):
                    continue
            else:
                if kind == "net":
                    continue
                if is_mutator(e) and e[1].rpartition(".")[2].startswith("_") and not e[1].endswith("__"):
                    continue
            res.add("%s|%s|%s|%s" % (e[1], o.replace(" ", "_"), v["function"], v["op"]),
                    "%s (called with a %s network) can modify %s: %s of %s in %s" % (
                        e[1], short(e[3]), ("its network argument '%s'" % o) if kind == "net" else
                        (("its argument '%s'" % o) if " " not in o else o), v["op"], v["field"] or v["kind"], v["function"]),
                    v["where"], v["function"], v["chain"])
    if prop == "P01":
        res.explanation = ("Context-sensitive points-to and side-effect analysis of the syntax trees: every public function and "
                           "method is analysed with arguments standing for every network reachable by a history of calls "
                           "(multilayer and multiplex, any directedness, interconnection, aspects); every write to an object "
                           "that the caller's network owns is an event, and any event outside the documented in-place "
                           "entry points is a violation.")
    else:
        res.explanation = ("The same side-effect analysis, for writes to objects other than networks that the caller owns "
                           "(lists, dictionaries, data frames), to default argument values and to module-level objects.")
    res.rule = "no write event on a protected object outside the table of documented in-place arguments"
    res.counts = {"entry_points": n_entries, "functions_reached": len(reached), "call_sites_resolved": sites,
                  "write_events_checked": sum(len(r["events"]) for r in rs),
                  "documented_in_place": len(exempt_seen), "entry_points_over_budget": len(incomplete)}
    res.notes = ["over budget: " + x for x in incomplete] + ["in place: %s(%s)" % x for x in sorted(exempt_seen)]
    res.floor("entry_points", 350)
    res.floor("functions_reached", 250)
    res.floor("documented_in_place", 3)
    if len(incomplete) > 12:
        raise AnalysisError("too many entry points over the work budget: %s" % incomplete[:5])
    return res
