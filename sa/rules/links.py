"""P05: undirected links read the same from both ends.  P06: directed links keep
the outgoing and incoming sides and the total degree in step."""
import itertools
from .world import *

LEVEL = "other"
V = Sym("V", "weight")


def patterns(aspects):
    """two node-layers with every pattern of equal and different coordinates"""
    for same in itertools.product((False, True), repeat=aspects + 1):
        def mk(fl, same=same):
            xs = names(fl, *["i", "s", "t"][:aspects + 1])
            ys = names(fl, *["j", "u", "v"][:aspects + 1])
            return tuple(xs), tuple(a if e else b for a, b, e in zip(xs, ys, same))
        yield same, mk


def forms(same, aspects):
    yield "full"
    if aspects and all(same[1:]):
        yield "short"
    if not aspects:
        return
    yield "handle"


def write(fl, w, x, y, form, value):
    if form == "intra":
        fl.setitem(intra(fl, w, x), (x[0], y[0]), value, None)
        return
    if form == "full":
        fl.setitem(w.net, full_link(x, y), value, None)
    elif form == "short":
        fl.setitem(w.net, (x[0], y[0]) + x[1:], value, None)
    else:
        fl.setitem(fl.item(w.net, x if len(x) > 1 else x[0], None), y if len(y) > 1 else y[0], value, None)


def read(fl, w, x, y, form="full"):
    if form == "full":
        return w.recanon(fl.item(w.net, full_link(x, y), None))
    if form == "short":
        return w.recanon(fl.item(w.net, (x[0], y[0]) + x[1:], None))
    return w.recanon(fl.item(node(fl, w, x), y if len(y) > 1 else y[0], None))


def intra(fl, w, x):
    return fl.item(fl.attr(w.net, "A", None), x[1] if w.aspects == 1 else tuple(x[1:]), None)


def node(fl, w, x):
    return fl.item(w.net, x if len(x) > 1 else x[0], None)


def meth(fl, o, name, *args):
    return fl.call_value(fl.attr(o, name, None), list(args), {}, None)


def yields(fl, w, items, y):
    """does an unfolded iteration contain the focused node-layer y"""
    for e in fl.iterate(items):
        v = unwrap(e)
        v = v if isinstance(v, tuple) else (v,)
        if not isinstance(e, Each) and len(v) == len(y) and fl.eq(v, y):
            return True
    return False


def make(fl, mx, aspects, directed, full):
    if mx:
        return MXWorld(fl, [("none",)] * aspects, directed, full)
    return MLWorld(fl, aspects, directed, full)


def layers_there(fl, w, x):
    """an intra-layer network can only be asked for when its layer exists"""
    if not all([w.is_in(a, e) for a, e in enumerate(x) if a]):
        raise Dead()


def scenario_undirected(mx, aspects, full, mk, form, delete):
    def sc(fl):
        w = make(fl, mx, aspects, False, full)
        x, y = mk(fl)
        if form == "intra":
            layers_there(fl, w, x)
        z = tuple(names(fl, "k", "a", "b")[:aspects + 1])
        if mx:
            z = z[:1] + x[1:]
        w.focus = [x, y] if x != y else [x]
        r = {}
        try:
            r["other before"] = read(fl, w, x, z)
            write(fl, w, x, y, form, NE if delete else V)
            r["forward"] = read(fl, w, x, y)
            r["backward"] = read(fl, w, y, x)
            r["other after"] = read(fl, w, x, z)
            r["other back"] = read(fl, w, z, x)
            r["handle"] = read(fl, w, y, x, "handle")
            if mx:
                r["intra"] = w.recanon(fl.item(intra(fl, w, x), (y[0], x[0]), None))
            if x[1:] == y[1:] and aspects:
                r["short"] = read(fl, w, x, y, "short")
            r["neighbor"] = yields(fl, w, meth(fl, node(fl, w, x), "__iter__"), y)
            r["neighbor back"] = yields(fl, w, meth(fl, node(fl, w, y), "__iter__"), x)
        except PyRaise as e:
            r["raise"] = "%s (%s) at %s" % (e.name, e.msg, e.where)
        w.consistent()
        return r
    return sc


def judge_undirected(r, delete):
    want = NE if delete else V
    if "raise" in r:
        return "an exception is raised: " + r["raise"]
    for k in ("forward", "backward", "handle", "short", "intra"):
        if k in r and r[k] != want:
            return "the link read %s is %r instead of %r" % (k, r[k], want)
    if r["other before"] != r["other after"] or r["other after"] != r["other back"]:
        return "another link changes from %r to %r (%r from its other end)" % (r["other before"], r["other after"], r["other back"])
    for k in ("neighbor", "neighbor back"):
        if k in r and r[k] != (not delete):
            return "the other end %s among the neighbors (%s)" % ("is" if r[k] else "is not", k)
    return None


def scenario_directed(mx, aspects, full, mk, form, delete):
    def sc(fl):
        w = make(fl, mx, aspects, True, full)
        x, y = mk(fl)
        w.focus = [x, y] if x != y else [x]
        if mx:
            layers_there(fl, w, x)      # degrees exist only for existing layers
        lw, lx, ly = (w.layer_world(x[1] if aspects == 1 else tuple(x[1:])), x[:1], y[:1]) if mx else (w, x, y)
        r = {}

        def degs():
            return [meth(fl, node(fl, w, n), m) for n in (x, y) for m in ("deg_out", "deg_in", "deg_total")]
        try:
            r["had"] = lw.link(lx, ly) if lw.row(lx) and lw.row(ly) else False
            r["had back"] = lw.link(ly, lx) if lw.row(lx) and lw.row(ly) else False
            r["back before"] = read(fl, w, y, x)
            b = degs()
            write(fl, w, x, y, form, NE if delete else V)
            r["forward"] = read(fl, w, x, y)
            r["back after"] = read(fl, w, y, x)
            r["handle"] = read(fl, w, x, y, "handle")
            if mx:
                r["intra"] = w.recanon(fl.item(intra(fl, w, x), (x[0], y[0]), None))
            a = degs()
            r["degs"] = [fl.binop(ast.Sub(), p, q, None) if not (p == 0 and isinstance(q, Lin)) else UNK for p, q in zip(a, b)]
            r["raw"] = (b, a)
            r["out"] = yields(fl, w, meth(fl, node(fl, w, x), "iter_out"), y)
            r["in"] = yields(fl, w, meth(fl, node(fl, w, y), "iter_in"), x)
        except PyRaise as e:
            r["raise"] = "%s (%s) at %s" % (e.name, e.msg, e.where)
        w.consistent()
        r["self"] = x == y
        return r
    return sc


def judge_directed(r, delete):
    want = NE if delete else V
    if "raise" in r:
        return "an exception is raised: " + r["raise"]
    for k in ("forward", "handle", "intra"):
        if k in r and r[k] != want:
            return "the link reads %r instead of %r (%s)" % (r[k], want, k)
    if not r["self"] and r["back before"] != r["back after"]:
        return "the opposite link changes from %r to %r" % (r["back before"], r["back after"])
    if r["out"] != (not delete):
        return "the target %s among the out-neighbors of the source" % ("is" if r["out"] else "is not")
    if r["in"] != (not delete):
        return "the source %s among the in-neighbors of the target" % ("is" if r["in"] else "is not")
    step = (-1 if r["had"] else 0) if delete else (0 if r["had"] else 1)
    tot = step if (r["self"] or not r["had back"]) else 0
    xs = [step, step if r["self"] else 0, tot]
    ys = [step if r["self"] else 0, step, tot]
    for who, have, want in (("source", r["degs"][:3], xs), ("target", r["degs"][3:], ys)):
        for name, h, e in zip(("out-degree", "in-degree", "total degree"), have, want):
            if h is UNK:
                continue
            if h != e:
                return "the %s of the %s changes by %r instead of %d" % (name, who, h, e)
    return None


import ast


def run(job):
    prop, mx, aspects, full, same, form, delete = job
    from ..model import Package
    fl = Flow(_PKG[0])
    mk = dict(patterns(aspects))[same]
    sc = (scenario_undirected if prop == "P05" else scenario_directed)(mx, aspects, full, mk, form, delete)
    judge = judge_undirected if prop == "P05" else judge_directed
    paths = 0
    bad, abst = [], []
    for facts, r in fl.explore(sc):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        b = judge(r, delete)
        if b:
            bad.append((b, sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    jobs = []
    for aspects in ((0, 1, 2)):
        for full in ((True, False) if aspects else (True,)):
            for same, mk in patterns(aspects):
                for form in forms(same, aspects):
                    for delete in (False, True):
                        jobs.append((prop, False, aspects, full, same, form, delete))
                        if aspects and form != "full" and same[1:] == (True,) * aspects and not same[0]:
                            jobs.append((prop, True, aspects, full, same, form if form != "short" else "intra", delete))
                            if form == "short":
                                jobs.append((prop, True, aspects, full, same, "full", delete))
    rs = pmap(run, jobs)
    report(res, rs, "links")
    res.rule = ("from every abstract table content, one link assignment or removal leaves both ends of the link in agreement"
                if prop == "P05" else
                "from every abstract table content, one link assignment or removal changes the outgoing side, the incoming side and the degrees together")
    res.explanation = ("Abstract interpretation of the item-assignment and item-lookup methods over membership facts about the link tables "
                       "(row present, link present, node and layer registered), every combination followed; names and weights are opaque, "
                       "so the cases cover networks of any size.")
    return res


def report(res, rs, what, place=lambda job: "pymnet/net.py"):
    paths = sum(r["paths"] for r in rs)
    reached = set()
    for r in rs:
        reached |= set(r["reached"])
        for b, facts in r["bad"]:
            j = r["job"]
            desc = ", ".join(str(z) for z in j[1:])
            key_ = "%s|%s" % (what, b.split(" at ")[0])
            res.add(key_.replace(" ", "_"), "%s: %s (case: %s)" % (what, b, desc), b.rpartition(" at ")[2] if " at " in b else place(j),
                    what, facts)
        for a in r["abst"]:
            if len(res.notes) < 40:
                res.notes.append("abstained: %s (case %s)" % (a, r["job"]))
    res.counts["cases"] = len(rs)
    res.counts["abstract_paths"] = paths
    res.counts["methods_interpreted"] = len(reached)
    res.counts["methods"] = sorted(reached)
    res.counts["abstained_cases"] = sum(1 for r in rs if r["abst"])
