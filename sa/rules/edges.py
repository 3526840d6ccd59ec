"""P24: iterating the edges gives every link exactly once with its weight, the
number of edges is their count, node and node-layer iteration is complete, and
the supra-adjacency matrix holds exactly the links."""
import ast
from .world import *
from .links import meth, report

LEVEL = "other"


class Matrix(Inst):
    pass


def hooks(fl):
    def zeros(fl_, args, kw):
        return PDict()
    fl.hooks[("native", "numpy.zeros")] = zeros
    fl.hooks[("native", "numpy.matrix")] = lambda fl_, args, kw: args[0]


def undirected_once(pairs):
    seen = {}
    for (x, y), v in pairs.items():
        k = tuple(sorted([key(x), key(y)]))
        seen[k] = v
    return seen


def scenario(spec, what):
    def sc(fl):
        w = closed(fl, spec)
        r = {}
        try:
            if what in ("edges", "count"):
                exp = links_of(fl, w)
                want = {(key(x), key(y)): v for (x, y), v in exp.items()} if w.directed else undirected_once(exp)
                edges = fl.attr(w.net, "edges", None)
                if what == "edges":
                    got = {}
                    for e in fl.iterate(edges):
                        e = unwrap(e)
                        if not isinstance(e, tuple) or len(e) != 2 * (w.aspects + 1) + 1:
                            r["bad"] = "an edge is given as %r" % (e,)
                            return r
                        x, y = e[0:-1:2], e[1:-1:2]
                        k = (key(x), key(y)) if w.directed else tuple(sorted([key(x), key(y)]))
                        if k in got:
                            r["bad"] = "the edge %s is iterated twice" % (k,)
                            return r
                        got[k] = w.recanon(e[-1])
                    for k in want:
                        if k not in got:
                            r["bad"] = "the edge %s is not iterated" % (k,)
                            return r
                        if want[k] != got[k]:
                            r["bad"] = "the weight of edge %s is %r instead of %r" % (k, got[k], want[k])
                            return r
                    for k in got:
                        if k not in want:
                            r["bad"] = "%s is iterated although there is no such link" % (k,)
                            return r
                else:
                    n = fl.length(edges)
                    if not isinstance(n, int):
                        raise Unsupported("number of edges %r" % (n,))
                    if n != len(want):
                        r["bad"] = "the number of edges is %d instead of %d" % (n, len(want))
            elif what == "nodes":
                g = w.grid
                want = sorted(set(key(x) for x in g if has_nl(w, x)))
                got = sorted(key(unwrap(e) if isinstance(unwrap(e), tuple) else (unwrap(e),)) for e in fl.iterate(meth(fl, w.net, "iter_node_layers")))
                if w.full:
                    coords = [[]]
                    for a in range(w.aspects + 1):
                        vals = []
                        for x in g:
                            if x[a] not in vals:
                                vals.append(x[a])
                        coords = [c + [e] for c in coords for e in vals]
                    want = sorted(key(tuple(c)) for c in coords)
                if got != want:
                    r["bad"] = "the node-layers iterated are %s instead of %s" % (got, want)
                    return r
                want = sorted(set(key(x[0]) for x in g))
                for m in ("__iter__", "iter_nodes"):
                    got = sorted(key(unwrap(e)) for e in fl.iterate(meth(fl, w.net, m)))
                    if got != want:
                        r["bad"] = "%s gives %s instead of %s" % (m, got, want)
                        return r
                n = fl.length(w.net)
                if isinstance(n, int) and n != len(want):
                    r["bad"] = "the number of nodes is %d instead of %d" % (n, len(want))
                    return r
                if w.aspects:
                    ls = []
                    for x in g:
                        if w.lay(x) not in ls:
                            ls.append(w.lay(x))
                    got = sorted(key(unwrap(e)) for e in fl.iterate(meth(fl, w.net, "iter_layers")))
                    if w.aspects == 1 and got != sorted(map(key, ls)):
                        r["bad"] = "iter_layers gives %s instead of %s" % (got, sorted(map(key, ls)))
                        return r
                    for l in ls:
                        want = sorted(key(x[0]) for x in g if w.lay(x) == l and has_nl(w, x))
                        got = sorted(key(unwrap(e)) for e in fl.iterate(meth(fl, w.net, "iter_nodes", l)))
                        if got != want:
                            r["bad"] = "iter_nodes of a layer gives %s instead of %s" % (got, want)
                            return r
            else:
                hooks(fl)
                exp = links_of(fl, w)
                inc = what == "matrix"
                res = meth(fl, w.net, "get_supra_adjacency_matrix", inc)
                if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], PDict) and isinstance(res[1], list)):
                    raise Unsupported("the supra-adjacency matrix")
                m, nl = res
                nl = [x if isinstance(x, tuple) else (x,) for x in nl]
                if sorted(map(key, nl)) != sorted(set(map(key, nl))) or not set(map(key, w.grid)) <= set(map(key, nl)):
                    r["bad"] = "the node-layers of the matrix are %s" % (sorted(map(key, nl)),)
                    return r
                for a, x in enumerate(nl):
                    for b, y in enumerate(nl):
                        if a == b and w.aspects == 0:
                            continue
                        have = [v for k, v in m.items_ if k == (a, b)]
                        have = w.recanon(have[0]) if have else 0
                        want = exp.get((x, y), NE)
                        if not inc and x[1:] != y[1:]:
                            want = 0
                        if have != want:
                            r["bad"] = "the matrix element of %s and %s is %r instead of %r" % (key(x), key(y), have, want)
                            return r
        except PyRaise as e:
            r["raise"] = "%s (%s) at %s" % (e.name, e.msg, e.where)
        w.consistent()
        return r
    return sc


def run(job):
    fl = Flow(_PKG[0])
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(scenario(job[0], job[1])):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        b = "an exception is raised: " + r["raise"] if "raise" in r else r.get("bad")
        if b:
            bad.append((b, sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=("P24",) + job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    jobs = [(s, what) for s in SPECS + LATE + MIXED for what in ("edges", "count", "nodes", "matrix", "intra matrix")]
    rs = pmap(run, jobs)
    report(res, rs, "iteration")
    res.rule = "edge, node and node-layer iteration, the edge count and the supra-adjacency matrix equal what the tables imply"
    res.explanation = ("Abstract interpretation of the iterators over facts about the tables of a network with representative node-layers, "
                       "for both network classes, zero to two aspects, directed or not, fully interconnected or not.")
    return res
