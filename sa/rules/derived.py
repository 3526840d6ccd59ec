"""P27: the content of derived networks.  Subnetworks, relabeled, normalized,
thresholded, aggregated, overlay, underlying and randomized networks hold exactly the
nodes, layers, memberships and links their definition gives, for every content
of the source network over representative node-layers."""
import ast, itertools
from .world import *
from .links import meth, report

LEVEL = "other"
T = "pymnet.transforms."
TH = Sym("threshold", "weight")


def strict(fl):
    """assumptions about values: a sum of weights is not the missing-link value"""
    fl.sums_differ = True


# links of the focused node-layers that may or may not exist, by position; all other links are absent
FREE_ML = {0: [(0, 1), (1, 2), (0, 0)], 1: [(0, 1), (0, 2), (1, 2), (0, 0)], 2: [(0, 1), (0, 2), (1, 2), (0, 0)]}
FREE_MX = [(0, 1), (2, 3)]


def tiny(fl, spec, rows=False):
    """a closed network in which few links are undecided"""
    w = closed(fl, spec)
    foc = w.focus
    last = None if rows else foc[-1]
    if isinstance(w, MXWorld):
        if not w.full:
            w.assume_member(foc[0][0], w.lay(foc[0]))
        free = [(foc[a], foc[b]) for a, b in FREE_MX] + ([(foc[1], foc[0])] if w.directed else [])
        ok = {(key(x), key(y)) for x, y in free}
        for x in foc:
            for y in foc:
                if x[1:] == y[1:] and x != y and (key(x), key(y)) not in ok and (w.directed or (key(y), key(x)) not in ok):
                    lw = w.layer_world(w.lay(x))
                    lw.assume(False, *lw.lk(x[:1], y[:1]))
            lw = w.layer_world(w.lay(x))
            k = ("row", key(x[:1]))
            if lw.known(*k) is None and x is not last:
                lw.assume(has_nl(w, x), *k)
            if w.directed and lw.known("td", key(x[:1])) is None:
                lw.assume(lw.row(x[:1]), "td", key(x[:1]))
        return w
    free = [(foc[a], foc[b]) for a, b in FREE_ML[w.aspects] if not (w.directed and w.aspects and a == b)]
    free += [(foc[1], foc[0])] if w.directed else []
    ok = {w.lk(x, y) for x, y in free}
    for x in foc:
        for y in foc:
            if w.lk(x, y) not in ok:
                w.assume(False, *w.lk(x, y))
        if x is not last and w.known("row", key(x)) is None:
            w.assume(has_nl(w, x), "row", key(x))
    for x in foc:
        if w.directed and w.known("td", key(x)) is None:
            w.assume(w.row(x), "td", key(x))
    return w


def nowhere(w, a, e):
    """an unknown name"""
    w.assume(False, "in", a, key(e))
    return e


def call(fl, name, *args, **kw):
    mod, _, f = (T + name if "." not in name else name).rpartition(".")
    fn = fl.resolve_global(mod, f)
    if fn is None:
        raise Unsupported("no function " + name)
    return fl.call_value(fn, list(args), kw, None)


def tup(x):
    x = unwrap(x)
    return x if isinstance(x, tuple) else (x,)


class Content(object):
    """what a network should contain"""

    def __init__(self, aspects, full, directed, elems, nls, links):
        self.aspects, self.full, self.directed = aspects, full, directed
        self.elems, self.nls, self.links = elems, nls, links

    def map(self, f):
        """f(aspect, name) -> new name"""
        g = lambda x: tuple(f(a, e) for a, e in enumerate(x))
        return Content(self.aspects, self.full, self.directed, [[f(a, e) for e in es] for a, es in enumerate(self.elems)],
                       [g(x) for x in self.nls], {(g(x), g(y)): v for (x, y), v in self.links.items()})

    def restrict(self, keep):
        ok = lambda x: all(keep(a, e) for a, e in enumerate(x))
        return Content(self.aspects, self.full, self.directed, [[e for e in es if keep(a, e)] for a, es in enumerate(self.elems)],
                       [x for x in self.nls if ok(x)], {k: v for k, v in self.links.items() if ok(k[0]) and ok(k[1])})


def uniq(xs):
    r = []
    for x in xs:
        if x not in r:
            r.append(x)
    return r


def source(fl, w):
    elems = [uniq(x[a] for x in w.grid) for a in range(w.aspects + 1)]
    if w.full:
        nls = [tuple(x) for x in itertools.product(*elems)]
    else:
        nls = [x for x in w.grid if has_nl(w, x)]
    return Content(w.aspects, w.full, w.directed, elems, nls, links_of(fl, w))


def check_net(fl, net, c, loose_nodes=False, others=(), selflinks=True):
    """None or what differs between a network object and the content it should have"""
    if not isinstance(net, Inst):
        return "the result is %r" % (net,)
    if net.attrs.get("aspects") != c.aspects:
        return "the number of aspects is %r instead of %d" % (net.attrs.get("aspects"), c.aspects)
    for a in range(c.aspects + 1):
        got = sorted(repr(unwrap(e)) for e in fl.iterate(meth(fl, net, "get_layers", a)))
        want = sorted(map(repr, uniq(c.elems[a])))
        if loose_nodes and a == 0:
            if not set(got) <= set(want) or not {repr(x[0]) for x in c.nls} <= set(got):
                return "the nodes are %s instead of %s" % (got, want)
        elif got != want:
            return "the %s are %s instead of %s" % ("nodes" if a == 0 else "layers of aspect %d" % a, got, want)
    if c.aspects:
        got = sorted(key(tup(x)) for x in fl.iterate(meth(fl, net, "iter_node_layers")))
        want = sorted(key(x) for x in (itertools.product(*c.elems) if c.full else c.nls))
        if got != want:
            return "the node-layers are %s instead of %s" % (got, want)
    nls = uniq(c.nls)
    for x in nls:
        for y in nls:
            if x == y and (not selflinks or isinstance(net, Inst) and net.cls == MX):
                continue
            if net.cls == MX and x[1:] != y[1:] and (x[0] != y[0] or sum(1 for p, q in zip(x, y) if p != q) != 1):
                continue
            if not c.aspects:
                have = fl.item(net, (x[0], y[0]), None)
            else:
                have = fl.item(net, full_link(x, y), None)
            want = c.links.get((x, y), NE)
            if have != want:
                return "the link from %s to %s is %r instead of %r" % (key(x), key(y), have, want)
    return None


def subset(fl, w, aspect, name, values):
    """none (all), or a collection: all but the last with an unknown name, or the last one"""
    if fl.choose(("arg", name, "None")):
        return None, list(values)
    if fl.choose(("arg", name, "first")):
        k = values[:-1] if len(values) > 1 else values
        return [nowhere(w, aspect, Sym("z_" + name))] + list(k), list(k)      # names that do not exist are ignored
    return PSet(list(values[-1:])), list(values[-1:])


def sc_subnet(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        src = source(fl, w)
        args, keeps = [], []
        for a in range(w.aspects + 1):
            g, k = subset(fl, w, a, "n" if a == 0 else "l%d" % a, src.elems[a]) if a < 2 else (None, list(src.elems[a]))
            args.append(g)
            keeps.append(k)
        want = src.restrict(lambda a, e: e in keeps[a])
        kw = {}
        if opt == "nolinks":
            kw["nolinks"] = True
            if isinstance(w, MXWorld):
                want.links = {k: v for k, v in want.links.items() if k[0][1:] != k[1][1:]}
            else:
                want.links = {}
        if opt == "newNet":
            kw["newNet"] = fl.call_value(ClassRef(ML), [], {"aspects": w.aspects, "noEdge": NE, "directed": w.directed,
                                                            "fullyInterconnected": w.full}, None)
        net = call(fl, "subnet", w.net, *args, **kw)
        if opt == "newNet" and net is not kw["newNet"]:
            return "the given network is not returned"
        return check_net(fl, net, want, loose_nodes=not w.full)
    return sc


def sc_relabel(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        src = source(fl, w)
        maps = []
        for a in range(w.aspects + 1):
            es = src.elems[a]
            if opt == "rename":
                m = {es[0]: Sym("new" + repr(es[0]))}
            elif opt == "swap":
                m = {es[0]: es[-1], es[-1]: es[0]}
            elif opt == "nodes":
                m = {es[0]: Sym("new" + repr(es[0]))} if a == 0 else {}
            elif opt == "layers":
                m = {es[-1]: Sym("new" + repr(es[-1]))} if a == 1 else {}
            maps.append(m)
        pd = lambda m: PDict(list(m.items()))
        if opt == "nodes":
            net = call(fl, "relabel", w.net, nodeNames=pd(maps[0]))
        else:
            ln = [pd(m) for m in maps[1:]]
            if opt == "layers":
                ln = ln[:1]
            if w.aspects == 1:
                ln = ln[0]
            net = call(fl, "relabel", w.net, pd(maps[0]) if opt != "layers" else None, ln if w.aspects else None)
        return check_net(fl, net, src.map(lambda a, e: maps[a].get(e, e)))
    return sc


def sc_normalize(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        src = source(fl, w)
        n0, l0 = Sym("n0", "int"), Sym("l0", "int")
        from ..flow import offset
        back = opt == "back"
        r = call(fl, "normalize", w.net, nodesToIndices=not back, layersToIndices=not back, nodeStart=n0, layerStart=l0)
        if not (isinstance(r, tuple) and len(r) == 3):
            return "the result is %r" % (r,)
        net, nm, lm = r
        lms = [lm] if w.aspects == 1 else list(lm)
        maps = []
        for a, m in enumerate([nm] + lms):
            if not isinstance(m, PDict):
                raise Unsupported("a map")
            items = [(v, k) if back else (k, v) for k, v in m.items_]
            if sorted(repr(k) for k, _ in items) != sorted(map(repr, src.elems[a])):
                return "the map of aspect %d covers %s" % (a, sorted(repr(k) for k, _ in items))
            s = n0 if a == 0 else l0
            if sorted(repr(v) for _, v in items) != sorted(repr(offset(s, i)) for i in range(len(items))):
                return "the indices of aspect %d are %s" % (a, sorted(repr(v) for _, v in items))
            maps.append(dict(items))
        return check_net(fl, net, src.map(lambda a, e: maps[a][e]))
    return sc


def accepted(fl, v, method):
    op = {">=": ast.GtE(), "<=": ast.LtE(), ">": ast.Gt(), "<": ast.Lt()}[method]
    return fl.order(op, v, TH)


def sc_threshold(spec, method):
    def sc(fl):
        fl.free = {TH.name}
        w = tiny(fl, spec)
        src = source(fl, w)
        net = call(fl, "threshold", w.net, TH, method) if method else call(fl, "threshold", w.net, TH)
        links = {k: v for k, v in src.links.items() if accepted(fl, v, method or ">=")}
        return check_net(fl, net, Content(w.aspects, w.full, w.directed, src.elems, src.nls, links))
    return sc


def total(fl, vs):
    t = vs[0]
    for v in vs[1:]:
        t = fl.binop(ast.Add(), t, v, None)
    return t


def sc_aggregate(spec, opt):
    asp, selfedges = opt

    def sc(fl):
        strict(fl)
        w = tiny(fl, spec)
        src = source(fl, w)
        gone = asp if isinstance(asp, tuple) else (asp,)
        keep = [a for a in range(w.aspects + 1) if a not in gone]
        f = lambda x: tuple(x[a] for a in keep)
        net = call(fl, "aggregate", w.net, asp, selfEdges=True) if selfedges else call(fl, "aggregate", w.net, asp)
        sums, seen = {}, set()
        for (x, y), v in src.links.items():
            if not w.directed:
                k = tuple(sorted((key(x), key(y))))
                if k in seen:
                    continue
                seen.add(k)
            a, b = f(x), f(y)
            if a == b and not selfedges:
                continue
            sums.setdefault((a, b), []).append(v)
            if not w.directed and a != b:
                sums.setdefault((b, a), []).append(v)
        links = {k: total(fl, v) for k, v in sums.items()}
        c = Content(len(keep) - 1, w.full, w.directed, [src.elems[a] for a in keep], uniq(map(f, src.nls)), links)
        return check_net(fl, net, c)
    return sc


def sc_overlay(spec, opt):
    def sc(fl):
        strict(fl)
        w = tiny(fl, spec)
        src = source(fl, w)
        net = call(fl, "overlay_network", w.net)
        sums = {}
        for (x, y), v in src.links.items():
            if x[1:] == y[1:] and x[0] != y[0]:
                sums.setdefault((x[:1], y[:1]), []).append(v)
        c = Content(0, True, w.directed, src.elems[:1], [(e,) for e in src.elems[0]], {k: total(fl, v) for k, v in sums.items()})
        return check_net(fl, net, c, selflinks=False)
    return sc


def sc_underlying(spec, opt):
    def sc(fl):
        fl.hooks[("native", "builtins.str")] = lambda fl_, args, kw: Sym("str%s" % key(args[0])) if isinstance(args[0], (tuple, Sym)) else UNK
        w = tiny(fl, spec)
        src = source(fl, w)
        net = call(fl, "get_underlying_graph", w.net)
        f = lambda x: (Sym("str%s" % key(x)),)
        c = Content(0, True, w.directed, [[f(x)[0] for x in src.nls]], [f(x) for x in src.nls], {(f(x), f(y)): v for (x, y), v in src.links.items()})
        return check_net(fl, net, c)
    return sc


def sc_randomize(spec, opt):
    def sc(fl):
        def shuffle(fl_, args, kw):
            l = args[0]
            for i in range(len(l) - 1):
                for j in range(i + 1, len(l)):
                    if fl.choose(("shuffle", fl.fresh("s"))):
                        l[i], l[j] = l[j], l[i]
                        break
            return None
        fl.hooks[("native", "random.shuffle")] = shuffle
        w = tiny(fl, spec)
        src = source(fl, w)
        net = call(fl, "randomize_nodes_by_layer", w.net)
        # every layer is mapped by some bijection of its nodes
        first = None
        for perm in itertools.product(*[list(itertools.permutations([x[0] for x in src.nls if x[1] == l])) for l in src.elems[1]]):
            m = {}
            for l, p in zip(src.elems[1], perm):
                for x, q in zip([x for x in src.nls if x[1] == l], p):
                    m[x] = (q,) + x[1:]
            intra = {(m[x], m[y]): v for (x, y), v in src.links.items() if x[1:] == y[1:]}
            coup = {k: v for k, v in src.links.items() if k[0][1:] != k[1][1:]}
            intra.update(coup)
            r = check_net(fl, net, Content(1, w.full, w.directed, src.elems, src.nls, intra), loose_nodes=not w.full)
            if r is None:
                return None
            first = first or r
        return first
    return sc


def sc_iter(spec, opt):
    rem, edges = opt

    def sc(fl):
        w = tiny(fl, spec)
        src = source(fl, w)
        nets = [unwrap(x) for x in fl.iterate(call(fl, "subnet_iter", w.net, list(rem), edges))]
        axes = []
        for a, es in enumerate(src.elems):
            if a in rem:
                axes.append([c for n in range(1, len(es) + 1) for c in itertools.combinations(es, n)])
            else:
                axes.append([tuple(es)])
        want = []
        for sel in itertools.product(*axes):
            c = src.restrict(lambda a, e: e in sel[a])
            keys = uniq(tuple(sorted((key(x), key(y)))) if not w.directed else (key(x), key(y)) for (x, y) in c.links
                        if not isinstance(w, MXWorld) or x[1:] == y[1:])
            if not edges:
                want.append(c)
                continue
            for n in range(len(keys) + 1):
                for ks in itertools.combinations(keys, n):
                    l = {(x, y): v for (x, y), v in c.links.items() if isinstance(w, MXWorld) and x[1:] != y[1:] or
                         (tuple(sorted((key(x), key(y)))) if not w.directed else (key(x), key(y))) in ks}
                    want.append(Content(c.aspects, c.full, c.directed, c.elems, c.nls, l))
        if len(nets) != len(want):
            return "%d subnetworks instead of %d" % (len(nets), len(want))
        left = list(nets)
        for c in want:
            for n in left:
                if check_net(fl, n, c, loose_nodes=not w.full) is None:
                    left.remove(n)
                    break
            else:
                return "no subnetwork with the nodes %s and the links %s" % (
                    sorted(map(key, c.nls)), sorted(key(x) + "-" + key(y) for x, y in c.links))
        return None
    return sc


MAKERS = {"subnet": sc_subnet, "relabel": sc_relabel, "normalize": sc_normalize, "threshold": sc_threshold, "aggregate": sc_aggregate,
          "overlay_network": sc_overlay, "get_underlying_graph": sc_underlying, "randomize_nodes_by_layer": sc_randomize, "subnet_iter": sc_iter}


def jobs_for(tier):
    r = []
    one = [s for s in SPECS if s[1] == 1]
    late = [s for s in LATE if tier == "thorough" or not s[2]]
    for s in SPECS + late:
        for o in ("links", "nolinks") + (("newNet",) if s[0] == "MX" else ()):
            r.append((s, "subnet", o))
        for o in ("rename", "swap", "nodes") + (("layers",) if s[1] else ()):
            r.append((s, "relabel", o))
        for o in ("to", "back"):
            r.append((s, "normalize", o))
        ops = (">=", "<=", ">", "<", None)
        if tier == "quick" and s[1:4] not in ((0, False, True), (0, True, True), (1, False, True)):
            ops = (ops[(SPECS + LATE).index(s) % 5],)
        for o in ops:
            r.append((s, "threshold", o))
        if s[1] == 1:
            r += [(s, "aggregate", (1, False)), (s, "aggregate", (1, True)), (s, "overlay_network", None)]
            if s[0] == "MX":
                r.append((s, "randomize_nodes_by_layer", None))
        if s[1] == 2 and (tier == "thorough" or s[4] is not CAT):
            r += [(s, "aggregate", (a, e)) for a in (1, 2, (1, 2)) for e in (False, True)]
        r.append((s, "get_underlying_graph", None))
        if s[1] == 0:
            r += [(s, "subnet_iter", ((0,), False)), (s, "subnet_iter", ((0,), True)), (s, "subnet_iter", ((), True))]
        if s[1] == 1:
            r += [(s, "subnet_iter", (z, False)) for z in ((0,), (1,), (0, 1), ())] + [(s, "subnet_iter", ((), True))]
    return r


def run(job):
    fl = Flow(_PKG[0])
    fl.maxsteps = 400000
    spec, what, opt = job
    make = MAKERS[what](spec, opt)

    def sc(f):
        f.free, f.sums_differ = set(), False
        try:
            b = make(f)
        except PyRaise as e:
            b = "an exception is raised: %s (%s) at %s" % (e.name, e.msg, e.where)
        return {"bad": b} if b else {}
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(sc):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        if "bad" in r:
            bad.append((what + ": " + r["bad"], sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=("P27",) + job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    rs = pmap(run, jobs_for(tier))
    from ..model import loc
    report(res, rs, "derived networks", lambda j: loc(pkg.functions[T + j[2]]) if T + j[2] in pkg.functions else "pymnet/transforms.py")
    res.rule = "nodes, layers, node-layers and links of every derived network equal those its definition gives"
    res.explanation = ("Abstract interpretation of the deriving functions on source networks with arbitrary content over representative "
                       "node-layers, with every selection, renaming, comparison outcome and shuffle as a separate path; the resulting "
                       "network is read back through the interpreted query methods.")
    return res
