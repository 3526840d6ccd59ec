"""P16: no dictionary, set or list is resized while it is being iterated."""
from .effects import short
from .mutation import run

LEVEL = "other"


def check(prop, pkg, tier):
    from ..check import Result
    res = Result()
    n = loops = cand = 0
    for r in run(pkg, tier):
        e = r["entry"]
        if not r["complete"]:
            continue
        n += 1
        loops += r["loops"]
        for v in r["iters"]:
            cand += 1
            own = v["origin"] is not None
            if not own and not v["same"]:
                continue
            res.add("%s|%s|%s" % (v["function"], v["kind"], ",".join(v["same"]) or v["origin"]),
                    "the loop in %s goes through a %s that %s resizes before the next step (reached from %s with a %s network)" % (
                        v["function"], v["kind"], v["site"] if v["site"] == v["mutation"] else
                        "%s (called at %s)" % (v["mutation"], v["site"]), e[1], short(e[3])),
                    v["loop"], v["function"])
    res.rule = ("no path from a loop body that continues the loop resizes the container the loop is walking lazily, when the "
                "container belongs to the caller or both are reached from the same variable")
    res.explanation = ("Points-to analysis with, for every for-loop and comprehension, the containers walked lazily "
                       "(through properties and generators) and the containers resized on paths that go on to the next step.")
    res.counts = {"entry_points": n, "loop_executions": loops, "aliasing_candidates_examined": cand}
    res.floor("entry_points", 350)
    res.floor("loop_executions", 300)
    return res
