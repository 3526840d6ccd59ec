"""P17: network generators return exactly the nodes, layers, numbers of links
and degrees they are asked for, for every outcome of their random draws."""
import ast, itertools, math
from .world import *
from .links import meth, report
from .derived import uniq, tup, full_link

LEVEL = "other"
M = "pymnet.models."
C = "pymnet.sampling.creators."
RETRIES = 3


class Draws(object):
    """every outcome of the random draws, with a limit on draws that only repeat a search"""

    def __init__(self, fl, limit):
        self.fl, self.left = fl, limit
        h = fl.hooks
        h[("native", "random.shuffle")] = self.shuffle
        h[("native", "random.sample")] = self.sample
        h[("native", "random.choice")] = self.choice
        h[("native", "random.random")] = lambda f, a, k: Sym(f.fresh("rnd"), "unit")
        h[("native", "random.seed")] = lambda f, a, k: None
        h[("native", "math.log")] = self.log
        h[("native", "math.floor")] = self.floor
        h[("native", "math.sqrt")] = lambda f, a, k: math.sqrt(a[0]) if isinstance(a[0], (int, float)) and a[0] >= 0 else UNK
        h[("native", "math.ceil")] = lambda f, a, k: math.ceil(a[0]) if isinstance(a[0], (int, float)) else UNK
        self.steps = 0

    def pick(self, n):
        """one of 0..n-1"""
        for i in range(n - 1):
            if self.fl.choose(("draw", self.fl.fresh("d"))):
                return i
        return n - 1

    def spend(self):
        self.left -= 1
        if self.left < 0:
            self.fl.cut = True       # longer searches are not followed
            raise Dead()

    def log(self, fl, a, kw):
        x = a[0]
        if isinstance(x, (int, float)):
            if x <= 0:
                raise PyRaise("ValueError", "logarithm of %r" % (x,))
            return math.log(x)
        return Expr("log", x)

    def floor(self, fl, a, kw):
        x = a[0]
        if isinstance(x, (int, float)):
            return math.floor(x)
        return self.pick(self.jump)

    def shuffle(self, fl, a, kw):
        l = a[0]
        if not isinstance(l, list):
            raise Unsupported("shuffle")
        # every way to pair neighbors; the order of the pairs and inside a pair stays
        rest, out = list(l), []
        while len(rest) > 1:
            x = rest.pop(0)
            opts = [i for i in range(len(rest)) if rest[i] not in rest[:i]]
            out += [x, rest.pop(opts[self.pick(len(opts))])]
        l[:] = out + rest
        return None

    def sample(self, fl, a, kw):
        pop, k = list(map(unwrap, fl.iterate(a[0]))), kw.get("k", a[1] if len(a) > 1 else None)
        if not isinstance(k, int):
            raise Unsupported("sample")
        if k > len(pop) or k < 0:
            raise PyRaise("ValueError", "sample larger than population")
        self.spend()
        r, left = [], list(pop)
        while len(r) < k:
            # increasing order of positions
            need = k - len(r)
            i = self.pick(len(left) - need + 1)
            r.append(left[i])
            left = left[i + 1:]
        return r

    def choice(self, fl, a, kw):
        pop = list(map(unwrap, fl.iterate(a[0])))
        if not pop:
            raise PyRaise("IndexError", "choice of nothing")
        self.spend()
        return pop[self.pick(len(pop))]


def call(fl, name, *args, **kw):
    mod, _, f = name.rpartition(".")
    fn = fl.resolve_global(mod, f)
    if fn is None:
        raise Unsupported("no function " + name)
    return fl.call_value(fn, list(args), kw, None)


def elements(fl, net, a):
    return sorted(repr(unwrap(e)) for e in fl.iterate(meth(fl, net, "get_layers", a)))


def read(fl, net, nodes, layers, nls=None):
    """(problem, links): the links of a network over the given nodes and layers"""
    if not isinstance(net, Inst) or net.attrs.get("aspects") != (0 if layers is None else 1):
        return "the result is %r with %s aspects" % (net, net.attrs.get("aspects") if isinstance(net, Inst) else "no"), None
    if elements(fl, net, 0) != sorted(map(repr, nodes)):
        return "the nodes are %s instead of %s" % (elements(fl, net, 0), sorted(map(repr, nodes))), None
    if layers is not None and elements(fl, net, 1) != sorted(map(repr, layers)):
        return "the layers are %s instead of %s" % (elements(fl, net, 1), sorted(map(repr, layers))), None
    if layers is not None and nls is not None:
        got = sorted(key(tup(x)) for x in fl.iterate(meth(fl, net, "iter_node_layers")))
        if got != sorted(map(key, nls)):
            return "the node-layers are %s instead of %s" % (got, sorted(map(key, nls))), None
    if layers is None:
        pts = [(n,) for n in nodes]
    else:
        pts = [(n, l) for l in layers for n in nodes]
    ne = net.attrs["noEdge"]
    links = {}
    mplex = net.cls == MX
    for x, y in itertools.combinations(pts, 2):
        if mplex and x[1:] != y[1:]:
            continue
        v = fl.item(net, (x[0], y[0]) if layers is None else full_link(x, y), None)
        if v != ne:
            links[(x, y)] = v
    if not mplex:
        for x in pts:
            v = fl.item(net, (x[0], x[0]) if layers is None else full_link(x, x), None)
            if v != ne:
                return "there is a link from %s to itself" % key(x), None
    return None, links


def names_of(*ns):
    return [Sym(n) for n in ns]


def pairs(nodes):
    return list(itertools.combinations(nodes, 2))


def canon(links):
    return tuple(sorted("-".join(sorted((key(x), key(y)))) for x, y in links))


def intra(nodes, layer=None):
    t = () if layer is None else (layer,)
    return [((a,) + t, (b,) + t) for a, b in pairs(nodes)]


def subsets(xs, k=None):
    for n in (range(len(xs) + 1) if k is None else (k,)):
        for c in itertools.combinations(xs, n):
            yield c


def ones(links):
    return None if all(v == 1 for v in links.values()) else "a link has the weight %r" % [v for v in links.values() if v != 1][0]


def checked(fl, net, nodes, layers, possible, nls=None, weights=True):
    p, links = read(fl, net, nodes, layers, nls)
    if p:
        return p
    got = canon(links)
    if got not in possible:
        return "the links are %s" % (", ".join(got) or "none")
    if weights and ones(links):
        return ones(links)
    fl.outcome.add(got)
    return None


def poss(*groups):
    """the sets of links made of one choice per group"""
    return {canon([l for g in c for l in g]) for c in itertools.product(*groups)}


# ------------------------------------------------------------------ scenarios: each returns (make, possible outcomes that must all occur)
def g_full(nodes, layers):
    ls = None if layers is None else list(range(layers)) if isinstance(layers, int) else layers
    every = [l for x in (ls if ls is not None else [None]) for l in intra(range(nodes), x)]
    return lambda fl: checked(fl, call(fl, M + "full", nodes, layers), range(nodes), ls, {canon(every)}), {canon(every)}


def g_full_multilayer(nodes, layers):
    ls = list(range(layers)) if isinstance(layers, int) else layers
    pts = [(n, l) for l in ls for n in range(nodes)]
    every = canon(itertools.combinations(pts, 2))
    return lambda fl: checked(fl, call(fl, M + "full_multilayer", nodes, layers), range(nodes), ls, {every}), {every}


def g_er_multilayer(nodes, layers, p, rw=False):
    ls = list(range(layers)) if isinstance(layers, int) else layers
    # links between different nodes
    pts = [(n, l) for l in ls for n in range(nodes)]
    every = [(x, y) for x, y in itertools.combinations(pts, 2) if x[0] != y[0]]
    ok = poss(list(subsets(every)))
    if p == 0:
        ok = {canon([])}
    return (lambda fl: checked(fl, call(fl, M + "er_multilayer", nodes, layers, p, rw), range(nodes), ls, ok, weights=not rw)), ok


def er_choice(nodes, layer, p=None, edges=None):
    ls = intra(nodes, layer)
    if edges is not None:
        return list(subsets(ls, edges))
    if p == 0:
        return [()]
    if p == 1:
        return [tuple(ls)]
    return list(subsets(ls))


def g_er(n, p=None, edges=None):
    def is_list(x):
        return isinstance(x, (list, tuple))
    mono = not is_list(n) and not is_list(p) and not is_list(edges)
    if mono:
        ok = poss(er_choice(range(n), None, p, edges))
        nodes, ls, nls = range(n), None, None
    else:
        k = len(n) if is_list(n) else len(p) if is_list(p) else len(edges)
        ls = list(range(k))
        nodesof = [list(x) for x in n] if is_list(n) else [list(range(n))] * k
        at = lambda v, i: v[i] if is_list(v) else v
        ok = poss(*[er_choice(nodesof[i], i, at(p, i), at(edges, i)) for i in ls])
        nodes = uniq(x for m in nodesof for x in m)
        nls = [(x, i) for i in ls for x in nodesof[i]]
    kw = {k: v for k, v in (("p", p), ("edges", edges)) if v is not None}
    return (lambda fl: checked(fl, call(fl, M + "er", n, **kw), nodes, ls, ok, nls)), ok


def g_er_partially(nodes, ps):
    ls = list(range(len(nodes)))
    ok = poss(*[er_choice(nodes[i], i, ps[i]) for i in ls])
    nls = [(x, i) for i in ls for x in nodes[i]]
    return (lambda fl: checked(fl, call(fl, M + "er_partially_interconnected", [list(x) for x in nodes], list(ps)),
                               uniq(x for m in nodes for x in m), ls, ok, nls)), ok


def g_creators_er(nodes, p):
    ls = list(range(len(nodes)))
    nls = [(x, i) for i in ls for x in nodes[i]]
    ok = poss(list(subsets(list(itertools.combinations(nls, 2))))) if p != 0 else {canon([])}
    return (lambda fl: checked(fl, call(fl, C + "er_multilayer_partially_interconnected", [list(x) for x in nodes], p, Sym("seed")),
                               uniq(x for m in nodes for x in m), ls, ok, nls)), ok


def deg_seq(links, nodes, layer=None):
    t = () if layer is None else (layer,)
    return [(n, sum(1 for x, y in links if (n,) + t in (x, y))) for n in nodes]


def g_conf_nodes(degs, multi=None):
    """degrees of nodes: {name: degree}, or one per layer"""
    layers = None if multi is None else list(range(multi))

    def make(fl):
        d = PDict(list(degs.items()))
        if multi is None:
            net = call(fl, M + "conf", d, degstype="nodes")
        else:
            net = call(fl, M + "conf", [PDict(list(degs.items())) for _ in layers], degstype="nodes")
        p, links = read(fl, net, list(degs), layers)
        if p:
            return p
        for l in (layers if layers is not None else [None]):
            got = deg_seq(links, degs, l)
            if got != list(degs.items()):
                return "the degrees are %s instead of %s" % (got, list(degs.items()))
        return ones(links)
    return make, None


def g_conf_layers(named, *degs):
    """one dictionary of degrees per layer; the layers are named or numbered"""
    layers = list(named) if named else list(range(len(degs)))
    nodes = uniq(n for d in degs for n in d)

    def make(fl):
        ds = [PDict(list(d.items())) for d in degs]
        net = call(fl, M + "conf", PDict(list(zip(layers, ds))) if named else ds, degstype="nodes")
        p, links = read(fl, net, nodes, layers, [(n, l) for l, d in zip(layers, degs) for n in d])
        if p:
            return p
        for l, d in zip(layers, degs):
            got = deg_seq(links, d, l)
            if got != list(d.items()):
                return "the degrees in layer %r are %s instead of %s" % (l, got, list(d.items()))
        return ones(links)
    return make, None


def g_conf_net(spec):
    """degrees taken from a network"""
    def make(fl):
        from .derived import tiny, source
        fl.free = set()
        w = tiny(fl, spec)
        if spec[0] == "ML":
            for x in w.grid:
                w.assume(False, *w.lk(x, x))
        c = source(fl, w)
        nodes = c.elems[0] if c.full or not c.aspects else uniq(x[0] for x in c.nls)
        net = call(fl, M + "conf", w.net)
        layers = None if c.aspects == 0 else c.elems[1]
        p, links = read(fl, net, nodes, layers, None if c.aspects == 0 else c.nls)
        if p:
            return p
        own = [(x, y) for x, y in c.links if x[1:] == y[1:] and x != y]
        for l in (layers if layers is not None else [None]):
            t = () if l is None else (l,)
            want = [(n, sum(1 for x, y in own if x == (n,) + t)) for n in nodes]
            if deg_seq(links, nodes, l) != want:
                return "the degrees are %s instead of %s" % (deg_seq(links, nodes, l), want)
        return None
    return make, None


def g_conf_dist(dist):
    n = sum(dist.values())

    def make(fl):
        net = call(fl, M + "conf", PDict(list(dist.items())))
        p, links = read(fl, net, range(n), None)
        if p:
            return p
        got = [d for _, d in deg_seq(links, range(n))]
        if sorted(got) != sorted(k for k, m in dist.items() for _ in range(m)):
            return "the degrees are %s instead of the distribution %s" % (sorted(got), dist)
        return ones(links)
    return make, None


def g_overlaps(nodes, combs):
    """combs: {layer combination: {node: degree}}"""
    layers = sorted({l for c in combs for l in c})

    def make(fl):
        net = call(fl, M + "conf_overlaps", PDict([(c, PDict(list(d.items()))) for c, d in combs.items()]))
        p, links = read(fl, net, nodes, layers)
        if p:
            return p
        where = {}
        for x, y in links:
            where.setdefault((x[0], y[0]), set()).add(x[1])
        for c, d in combs.items():
            got = {n: sum(1 for pr, ls in where.items() if n in pr and ls == set(c)) for n in d}
            if got != d:
                return "the overlap degrees of %r are %s instead of %s" % (c, got, d)
        return ones(links)
    return make, None


def g_overlaps_er(n, edges, ps):
    layers = sorted({l for c in ps for l in c})

    def make(fl):
        net = call(fl, M + "er_overlaps_match_aggregated", n, edges, PDict(list(ps.items())))
        p, links = read(fl, net, range(n), layers)
        if p:
            return p
        where = {}
        for x, y in links:
            where.setdefault((x[0], y[0]), set()).add(x[1])
        for c, q in ps.items():
            if len(c) > 1:
                m = len(c) * int(round(q * edges))
                got = sum(1 for ls in where.values() if ls == set(c))
                if got != m:
                    return "%d links are shared by exactly %r instead of %d" % (got, c, m)
        if len(where) != edges * len(layers):
            return "the aggregated network has %d links instead of %d" % (len(where), edges * len(layers))
        return ones(links)
    return make, None


def g_ba(n, ms):
    layers = list(range(len(ms)))

    def make(fl):
        net = call(fl, M + "ba_total_degree", n, list(ms))
        p, links = read(fl, net, range(n), layers)
        if p:
            return p
        for l, m in zip(layers, ms):
            for i in range(n):
                got = sum(1 for x, y in links if x[1] == l and i == max(x[0], y[0]))
                want = 0 if i < m else m
                if got != want:
                    return "node %d attaches to %d earlier nodes in layer %d instead of %d" % (i, got, l, want)
        return ones(links)
    return make, None


def g_external(name, n, edges):
    """models whose layers come from a third-party generator"""
    layers = list(range(len(edges)))

    def make(fl):
        calls = []

        def watts(fl_, args, kw):
            net = fl.call_value(ClassRef(ML), [], {"aspects": 0}, None)
            for i in range(n):
                fl.call_value(fl.attr(net, "add_node", None), [i], {}, None)
            l = intra(range(n))[:len(calls) + 1]
            calls.append(l)
            for x, y in l:
                fl.setitem(net, (x[0], y[0]), 1, None)
            return net

        def geometric(fl_, args, kw):
            g = Inst("$graph")
            l = intra(range(n))[:len(calls) + 1]
            calls.append(l)
            g.attrs["nodes"] = list(range(n))
            g.attrs["edges"] = [(x[0], y[0]) for x, y in l]
            return g
        fl.hooks[("native", "networkx.soft_random_geometric_graph")] = geometric
        fl.hooks[("native", "networkx.get_node_attributes")] = lambda f, a, k: Sym("pos")
        fl.hooks[("native", "pymnet.nxwrap.watts_strogatz_graph")] = watts
        net = call(fl, M + name, n, list(edges))
        if len(calls) != len(edges):
            return "%d layers are generated" % len(calls)
        want = canon([((x[0], i), (y[0], i)) for i, l in enumerate(calls) for x, y in l])
        return checked(fl, net, range(n), layers, {want})
    return make, None


a, b, c, d, e, f, g, h = names_of(*"abcdefgh")
PS = Sym("p", "unit")


def jobs_for(tier):
    r = []
    for n in (0, 1, 2, 3):
        r += [("full", (n, l)) for l in (None, 1, 2, ["x", "y"])]
        r += [("full_multilayer", (n, l)) for l in (1, 2, ["x", "y"])]
        r += [("er", (n, p)) for p in (PS, 0, 0.0, 1, 1.0)] + [("er", (n, None, k)) for k in range(n * (n - 1) // 2 + 1)]
    r += [("er", (4, None, k)) for k in range(7)] + [("er", (5, None, k)) for k in (1, 2, 10)]
    r += [("er", (2, [PS, PS])), ("er", (3, [0.0, PS])), ("er", (3, [1.0, PS])), ("er", (3, None, [1, 2])), ("er", (3, None, [0, 3])), ("er", (1, [PS, 1.0]))]
    r += [("er", ([[a, b], [b, c]], q)) for q in (PS, 0.0, 1.0)] + [("er", ([[a, b], [b, c, d]], [PS, 1.0])), ("er", ([[a, b], [b, c, d]], None, [1, 2])),
                                                                   ("er", ([[a, b, c], [b, d]], None, 1)), ("er", ([[a], [b, c]], None, [0, 1]))]
    r += [("er_partially_interconnected", ([[a, b], [b, c]], [PS, PS])), ("er_partially_interconnected", ([[a], [b, c, d]], [0.0, 1.0])),
          ("er_partially_interconnected", ([[a, b, c], []], [PS, PS]))]
    r += [("er_multilayer", (n, l, p)) for n, l in ((1, 1), (1, 2), (2, 1), (3, 1), (2, 2), (2, ["x", "y"])) for p in (PS, 0)]
    r += [("er_multilayer", (2, 2, PS, True))]
    r += [("creators_er", (ns, p)) for ns in ([[a, b], [b]], [[a], [a]], [[a, b, c]], [[a], [], [b]]) for p in (PS, 0)]
    seqs = [{a: 1, b: 1}, {a: 1, b: 1, c: 0}, {a: 2, b: 1, c: 1}, {a: 1, b: 1, c: 1, d: 1}, {a: 0, b: 0}, {a: 2, b: 1, c: 1, d: 1, e: 1},
            {a: 3, b: 1, c: 1, d: 1}, {a: 1, b: 2, c: 1, d: 0}]
    if tier == "thorough":
        seqs += [{a: 2, b: 2, c: 1, d: 1, e: 1, f: 1}]
    r += [("conf_nodes", (s,)) for s in seqs] + [("conf_nodes", (s, 2)) for s in seqs[:3]]
    r += [("conf_layers", z) for z in ((None, {a: 1, b: 1}, {b: 1, c: 1}), (None, {a: 1, b: 1, c: 0}, {a: 0, b: 1, d: 1}), (None, {a: 1, b: 1}, {c: 0, a: 0, b: 0}),
                                       ("xy", {a: 1, b: 1}, {a: 0, b: 0}), ("xy", {a: 1, b: 1}, {c: 1, b: 1}), (None, {a: 0, b: 0}, {a: 1, b: 1}, {a: 0, b: 0}),
                                       (None, {a: 1, b: 1}, {a: 1, c: 1}, {a: 1, b: 1}))]
    r += [("conf_dist", (s,)) for s in ({1: 2, 0: 2}, {1: 2, 0: 1, 2: 0}, {2: 1, 0: 1, 1: 2}, {1: 2}, {0: 2, 1: 2}, {2: 1, 1: 2}, {1: 4}, {0: 1}, {2: 1, 1: 4})]
    r += [("conf_net", (s,)) for s in SPECS if s[1] <= 1 and not s[2] and s[4] in (None, CAT) and (s[0] == "MX" or s[1] == 0)]
    r += [("overlaps", (ns, cs)) for ns, cs in (
        ([a, b, c], {("x", "y"): {a: 1, b: 1, c: 0}, ("x",): {a: 0, b: 1, c: 1}, ("y",): {a: 0, b: 0, c: 0}}),
        ([a, b, c], {("x",): {a: 1, b: 1, c: 0}, ("y",): {a: 0, b: 0, c: 0}}),
        ([a, b], {("x", "y"): {a: 0, b: 0}}),
        ([a, b, c, d], {("x", "y"): {a: 1, b: 1, c: 0, d: 0}, ("x",): {a: 1, b: 0, c: 1, d: 0}}),
        ([a, b, c, d, e], {("x", "y"): {a: 2, b: 1, c: 1, d: 1, e: 1}}),
        ([a, b, c, d, e, f], {("x", "y"): {a: 1, b: 1, c: 0, d: 0, e: 0, f: 0}, ("x",): {a: 1, b: 1, c: 1, d: 1, e: 1, f: 1}}))]
    r += [("overlaps_er", z) for z in ((3, 1, {("x",): 1, ("y",): 1}), (4, 2, {("x", "y"): 0.5}), (3, 1, {("x", "y"): 0.0}), (4, 1, {("x", "y"): 1.0, ("y", "z"): 0.0}), (4, 1, {("x", "y"): 0, ("y", "z"): 0}),
                                       (4, 1, {("x", "y"): 1.0, ("x",): 0}))]
    r += [("ba", z) for z in ((1, [1]), (2, [1]), (3, [1]), (3, [2]), (4, [2]), (3, [1, 1]), (3, [1, 2]), (2, [3]))]
    r += [("external", z) for z in (("ws", 3, [2]), ("ws", 3, [2, 3]), ("geo", 3, [2]), ("geo", 3, [1, 2]))]
    return r


MAKERS = {"full": g_full, "full_multilayer": g_full_multilayer, "er": g_er, "er_multilayer": g_er_multilayer, "er_partially_interconnected": g_er_partially,
          "creators_er": g_creators_er, "conf_nodes": g_conf_nodes, "conf_dist": g_conf_dist, "conf_layers": g_conf_layers, "conf_net": g_conf_net,
          "overlaps": g_overlaps, "overlaps_er": g_overlaps_er, "ba": g_ba, "external": g_external}
NAMES = {"creators_er": C + "er_multilayer_partially_interconnected", "conf_nodes": M + "conf", "conf_dist": M + "conf", "conf_layers": M + "conf",
         "conf_net": M + "conf", "overlaps": M + "conf_overlaps", "overlaps_er": M + "er_overlaps_match_aggregated", "ba": M + "ba_total_degree"}


def fname(job):
    return NAMES.get(job[1], M + (job[2][0] if job[1] == "external" else job[1]))


def budget(what, args):
    """the draws that are needed, and some that repeat a search"""
    if what == "overlaps_er":
        return args[1] * len({l for c in args[2] for l in c}) + 1
    if what == "ba":
        return max(args[0] - 1, 1) * len(args[1]) + 2
    return RETRIES


def run(job):
    fl = Flow(_PKG[0])
    fl.maxsteps = 200000
    what, args = job
    make, must = MAKERS[what](*args)
    fl.outcome, fl.cut = set(), False

    def sc(f):
        f.free, f.sums_differ = set(), False
        f.hooks = {}
        dr = Draws(f, budget(what, args))
        dr.jump = 4 if what != "conf" else 1
        if what == "er":
            k = args[0] if isinstance(args[0], int) else max([len(x) for x in args[0]] or [0])
            dr.jump = k * (k - 1) // 2 + 1
        try:
            v = make(f)
        except PyRaise as x:
            v = "an exception is raised: %s (%s) at %s" % (x.name, x.msg, x.where)
        return {"bad": v} if v else {}
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(sc):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        if "bad" in r:
            bad.append(("%s%s: " % (what, show(args)) + r["bad"], sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    if not paths and not abst:
        abst.append("no followed sequence of draws ends")
    if must is not None and not bad and not abst and not fl.cut and fl.outcome != must:
        bad.append(("%s%s: no draw gives %s" % (what, show(args), sorted(map(repr, must - fl.outcome))[:3]), []))
    return dict(job=("P17",) + job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


def show(x):
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (show(k), show(v)) for k, v in x.items())
    if isinstance(x, tuple):
        return "(%s)" % ", ".join(map(show, x))
    return repr(x)


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    rs = pmap(run, jobs_for(tier))
    from ..model import loc
    report(res, rs, "generators", lambda j: loc(pkg.functions[fname(j)]) if fname(j) in pkg.functions else "pymnet/models.py")
    res.rule = "nodes, layers, memberships and links of every generated network are among those the parameters allow, and every allowed set of links can occur"
    res.explanation = ("Abstract interpretation of the generators with every random draw as a separate path (searches that draw again and again are "
                       "followed for a bounded number of draws); the network returned is read back through the interpreted query methods.")
    return res
