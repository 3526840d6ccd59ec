"""P08: the ends of every link, and every added node and layer, are registered
everywhere: in the node and layer sets, in the membership of their layer, and
between a multiplex network and its intra-layer networks."""
import itertools
from .world import *
from .links import patterns, meth, yields, report, node, V

LEVEL = "other"


def layer_arg(w, x):
    return x[1] if w.aspects == 1 else tuple(x[1:])


def observe(fl, w, mx, x, present):
    """where a registered node-layer must be visible"""
    bad = []
    def see(what, c, k):
        if not yields(fl, w, fl.iterate(c) if isinstance(c, (AbsSet, PSet)) else c, k):
            bad.append(what)
    see("the nodes of the network", meth(fl, w.net, "__iter__"), x[:1])
    see("iter_nodes()", meth(fl, w.net, "iter_nodes"), x[:1])
    for a in range(1, w.aspects + 1):
        if not fl.contains(meth(fl, w.net, "get_layers", a), x[a]):
            bad.append("get_layers(%d)" % a)
    if w.aspects:
        l = layer_arg(w, x)
        see("iter_nodes(layer)", meth(fl, w.net, "iter_nodes", l), x[:1])
        if not w.full:
            t = w.net.attrs.get("_nodeToLayers")
            if isinstance(t, (AbsDict, PDict)):
                if not fl.contains(t, x[0]) or not fl.contains(fl.dget(t, x[0], None), l):
                    bad.append("the layers of the node")
        if mx:
            see("the intra-layer network", fl.item(fl.attr(w.net, "A", None), l, None), x[:1])
    return bad


OPS = ("link", "link short", "intra link", "add_node", "intra add_node", "add_layer")


def scenario(mx, aspects, directed, full, mk, op, delete, others=1):
    def sc(fl):
        x, y = mk(fl)
        w = MXWorld(fl, [("categorical", Sym("c", "weight"))] * aspects, directed, full) if mx else MLWorld(fl, aspects, directed, full)
        w.focus = [x, y] if x != y else [x]
        w.others = not (aspects and not full) or aspects < others
        r = {}
        val = NE if delete else V
        try:
            other = None
            if aspects and not full:
                ol = tuple(names(fl, *["a", "b"][:aspects]))
                other = (x[0],) + ol
                w.focus.append(other)
                r["other before"] = w.member(x[0], layer_arg(w, other))
            if op == "link":
                from .world import full_link
                fl.setitem(w.net, full_link(x, y), val, None)
            elif op == "link short":
                fl.setitem(w.net, (x[0], y[0]) + x[1:], val, None)
            elif op in ("intra link", "intra add_node"):
                if not all([w.is_in(a, e) for a, e in enumerate(x) if a]):
                    raise Dead()
                A = fl.item(fl.attr(w.net, "A", None), layer_arg(w, x), None)
                if op == "intra link":
                    fl.setitem(A, (x[0], y[0]), val, None)
                else:
                    meth(fl, A, "add_node", x[0])
            elif op == "add_node":
                if aspects:
                    if w.full or mx:
                        for a, e in enumerate(x):
                            if a and not w.is_in(a, e):
                                raise Dead()
                    meth(fl, w.net, "add_node", x[0], layer_arg(w, x)) if not w.full else meth(fl, w.net, "add_node", x[0])
                else:
                    meth(fl, w.net, "add_node", x[0])
            elif op == "add_layer":
                for a in range(1, aspects + 1):
                    meth(fl, w.net, "add_layer", x[a], a)
            if op == "add_layer":
                bad = []
                for a in range(1, aspects + 1):
                    if not fl.contains(meth(fl, w.net, "get_layers", a), x[a]):
                        bad.append("get_layers(%d)" % a)
                if mx and not fl.contains(fl.attr(w.net, "A", None), layer_arg(w, x)):
                    bad.append("the intra-layer networks")
                r["missing"] = bad
            else:
                r["missing"] = ["%s (first end)" % b for b in observe(fl, w, mx, x, True)]
                if op in ("link", "link short", "intra link"):
                    r["missing"] += ["%s (second end)" % b for b in observe(fl, w, mx, y, True)]
            if other is not None:
                t = w.net.attrs.get("_nodeToLayers")
                if fl.contains(t, other[0]):
                    r["other after"] = fl.contains(fl.dget(t, other[0], None), layer_arg(w, other))
                else:
                    r["other after"] = False
        except PyRaise as e:
            r["raise"] = "%s (%s) at %s" % (e.name, e.msg, e.where)
        w.consistent()
        return r
    return sc


def judge(r):
    if "raise" in r:
        return "an exception is raised: " + r["raise"]
    if r["missing"]:
        return "not registered in " + ", ".join(r["missing"])
    if "other before" in r and r["other before"] != r["other after"]:
        return "the membership of the node in another layer changes"
    return None


def run(job):
    mx, aspects, directed, full, same, op, delete = job
    fl = Flow(_PKG[0])
    mk = dict(patterns(aspects))[same]
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(scenario(mx, aspects, directed, full, mk, op, delete)):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        b = judge(r)
        if b:
            bad.append((b, sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    jobs = []
    for mx in (False, True):
        for aspects in ((1, 2) if mx else (0, 1, 2)):
            for directed in (False, True):
                for full in ((True, False) if aspects else (True,)):
                    for same, mk in patterns(aspects):
                        for op in OPS:
                            if op.startswith("intra") and not mx:
                                continue
                            samelayer = all(same[1:])
                            if op == "link" and mx and not (samelayer and not same[0]):
                                continue          # only links inside a layer can be set
                            if op == "link short" and (not aspects or not samelayer or (mx and same[0])):
                                continue
                            if op == "intra link" and (not samelayer):
                                continue
                            if op in ("add_node", "intra add_node", "add_layer") and any(same):
                                continue
                            if op == "add_layer" and not aspects:
                                continue
                            for delete in ((False, True) if "link" in op else (False,)):
                                jobs.append((mx, aspects, directed, full, same, op, delete))
    rs = pmap(run, jobs)
    report(res, rs, "registration")
    res.rule = "after every way of adding a node, a layer or a link, its node-layers are visible in every node, layer and membership view"
    res.explanation = ("Abstract interpretation of the adding methods over facts about the node set, the layer sets and the layer membership "
                       "of both network classes; every combination of facts is followed.")
    return res
