"""P18: clustering coefficients and elementary cycle counts equal the value of
their definition on the same network."""
import itertools
from fractions import Fraction
from .world import *
from .links import meth, report
from ..alg import Alg

LEVEL = "other"
CC = "pymnet.cc."
UNDEF = Sym("undefined", "name")
NODES, LAYERS = ("i", "j", "h", "k"), ("s", "u", "r")


# ------------------------------------------------------------------- contents
class Net(object):
    """content of a network: links {(layer, frozenset of two nodes): weight}, present node-layers"""

    def __init__(self, n, L, links, absent=(), full=True, weighted=False):
        self.nodes = list(range(n))
        self.layers = list(range(L))
        self.full, self.mono = full, L == 0
        self.here = set((a, l) for a in self.nodes for l in (self.layers or [0])) - set(absent)
        ks = sorted((l, tuple(sorted(e))) for l, e in links)
        self.w = dict(((l, frozenset(e)), Alg.symbol(i) if weighted else 1) for i, (l, e) in enumerate(ks))

    def a(self, i, j, l=0):
        return self.w.get((l, frozenset((i, j))), 0) if i != j else 0

    def has(self, i, j, l=0):
        return (l, frozenset((i, j))) in self.w

    def neigh(self, i, l=0):
        return [j for j in self.nodes if j != i and self.has(i, j, l)]

    def agg(self, i, j):
        return total(self.a(i, j, l) for l in (self.layers or [0]))

    def text(self):
        return "links %s, without %s" % (sorted((tuple(sorted(NODES[x] for x in e)), LAYERS[l]) for l, e in self.w),
                                        sorted((NODES[a], LAYERS[l]) for a in self.nodes for l in (self.layers or [0]) if (a, l) not in self.here))


def total(xs):
    r = 0
    for x in xs:
        r = plus(r, x)
    return r


def plus(a, b):
    return a + b


def subsets(xs, most=None):
    xs = list(xs)
    for n in range((len(xs) if most is None else most) + 1):
        for c in itertools.combinations(xs, n):
            yield c


def pairs(n):
    return [frozenset(p) for p in itertools.combinations(range(n), 2)]


def mono_nets(tier):
    for c in subsets([(0, e) for e in pairs(4)]):
        yield Net(4, 0, c, weighted=True)


def canonical(n, L, links, absent, layer0=True):
    """the least image under permutations that keep node 0 (and layer 0)"""
    best = None
    for p in itertools.permutations(range(1, n)):
        p = (0,) + p
        for q in itertools.permutations(range(1, L)):
            q = (0,) + q
            im = (sorted((q[l], tuple(sorted(p[x] for x in e))) for l, e in links), sorted((p[a], q[l]) for a, l in absent))
            if best is None or im < best:
                best = im
    return best


def mplex_nets(kind, tier):
    if kind == "full2":
        cfg = [(3, 2, None, [()], True)]
    elif kind == "full3":
        cfg = [(3, 3, None, [()], True)]
    elif kind == "four":
        cfg = [(4, 2, 1 if tier == "quick" else None, [()], True)]
    elif kind == "part2":
        cfg = [(3, 2, None, [c for c in subsets([(a, l) for a in range(3) for l in range(2)]) if (0, 0) not in c], False)]
    else:
        cells = [(a, l) for a in range(3) for l in range(3) if (a, l) != (0, 0)]
        cfg = [(3, 3, 1 if tier == "quick" else None, [c for c in subsets(cells, 1 if tier == "quick" else 2)], False)]
    for n, L, most, absents, full in cfg:
        seen = set()
        for ab in absents:
            per = [[(l, e) for e in pairs(n) if all((x, l) not in ab for x in e)] for l in range(L)]
            for c in itertools.product(*[list(subsets(p, None if l == 0 or most is None else min(most, len(p)))) for l, p in enumerate(per)]):
                links = [x for y in c for x in y]
                k = repr(canonical(n, L, links, ab))
                if k not in seen:
                    seen.add(k)
                    yield Net(n, L, links, ab, full)


def build(fl, t):
    """the network with this content, built with the public interface"""
    ns = names(fl, *NODES[:len(t.nodes)])
    ls = names(fl, *LAYERS[:len(t.layers)])
    if t.mono:
        net = fl.call_value(ClassRef(ML), [], {"aspects": 0}, None)
        for x in ns:
            meth(fl, net, "add_node", x)
        for (l, e), v in t.w.items():
            a, b = sorted(e)
            fl.setitem(net, (ns[a], ns[b]), v, None)
        return net, ns, ls
    net = fl.call_value(ClassRef(MX), [], {"couplings": ("categorical", 1.0), "fullyInterconnected": t.full}, None)
    for l in ls:
        meth(fl, net, "add_layer", l)
    for a, x in enumerate(ns):
        if t.full:
            meth(fl, net, "add_node", x)
            continue
        for k, l in enumerate(ls):
            if (a, k) in t.here:
                meth(fl, net, "add_node", x, l)
        if not any((a, k) in t.here for k in t.layers):
            meth(fl, net, "add_node", x)
    for (l, e), v in t.w.items():
        a, b = sorted(e)
        fl.setitem(net, (ns[a], ns[b], ls[l], ls[l]), v, None)
    return net, ns, ls


# ---------------------------------------------------------------- definitions
def lcc(t, i, l=0):
    n, d = triads(t, i, l)
    return Fraction(n, d) if d else UNDEF


def triads(t, i, l=0):
    ns = t.neigh(i, l)
    return sum(1 for a, b in itertools.combinations(ns, 2) if t.has(a, b, l)), len(ns) * (len(ns) - 1) // 2


def maxw(t):
    r = None
    for v in t.w.values():
        r = v if r is None or Alg.below(r, v) else r
    return r


def zhang(t, nodes):
    nom = den = 0
    for i in nodes:
        for a, b in itertools.combinations(t.neigh(i), 2):
            nij = t.a(i, a) * t.a(i, b)
            nom, den = nom + nij * t.a(a, b), den + nij
    return (nom / den / maxw(t)) if isinstance(den, Alg) else UNDEF


def onnela(t, i):
    ns = t.neigh(i)
    if len(ns) < 2:
        return UNDEF
    s = total((t.a(i, a) * t.a(i, b) * t.a(a, b)).root(Fraction(1, 3)) for a, b in itertools.combinations(ns, 2) if t.has(a, b))
    return s * 2 / (len(ns) * (len(ns) - 1)) / maxw(t) if isinstance(s, Alg) else 0


def barrat(t, i):
    ns = t.neigh(i)
    if len(ns) < 2:
        return UNDEF
    s = total(t.a(i, a) + t.a(i, b) for a, b in itertools.combinations(ns, 2) if t.has(a, b))
    return s / ((len(ns) - 1) * total(t.a(i, a) for a in ns)) if isinstance(s, Alg) else 0


def barrett(t, i):
    def mx(a, b):
        return b if Alg.below(a, b) else a
    nom = total(t.agg(i, j) * t.agg(i, h) * t.agg(j, h) for j in t.nodes for h in t.nodes)
    den = total(t.agg(i, j) * total(mx(t.a(i, h, l), t.a(j, h, l)) for l in t.layers) for j in t.nodes for h in t.nodes)
    if not isinstance(den, Alg) and den == 0:
        return UNDEF
    return ratio(nom, den)


def ratio(a, b):
    if isinstance(a, Alg) or isinstance(b, Alg):
        return Alg.of(a) / b
    return Fraction(a, b)


def walks(t):
    """names of the elementary cycles -> function (node, layer) -> count"""
    cells = sorted(t.here)
    A = {}
    C = {}
    F = {}
    for a, l in cells:
        A[a, l] = [(b, l) for b in t.nodes if (b, l) in t.here and t.has(a, b, l)]
        C[a, l] = [(a, m) for m in t.layers if m != l and (a, m) in t.here]
        F[a, l] = [(b, l) for b in t.nodes if b != a and (b, l) in t.here]
    M = {"a": A, "c": C, "f": F}

    def count(word, x):
        if x not in t.here:
            return 0
        v = {x: 1}
        for ch in word:
            v2 = {}
            for y, n in v.items():
                for z in M[ch][y]:
                    v2[z] = v2.get(z, 0) + n
            v = v2
        return v.get(x, 0)
    return count


WORDS = ("aaa", "aacac", "acaac", "acaca", "acacac", "afa", "afcac", "acfac", "acfca", "acfcac")


def cycles(t, cells):
    c = walks(t)
    return tuple(sum(c(w, x) for x in cells) for w in WORDS)


def cvec(v, f=(1, 1, 1)):
    t1, t2, t3 = v[0], v[1] + v[2] + v[3], v[4]
    d1, d2, d3 = v[5], v[6] + v[7] + v[8], v[9]
    return (t1, t2, t3), (d1, d2, d3)


def flat(v):
    return tuple(x for z in zip(*cvec(v)) for x in z)


def parts(v):
    t, d = cvec(v)
    return tuple(Fraction(a, b) if b else 0 for a, b in zip(t, d))


def blend(v, a=Fraction(1, 2), b=Fraction(1, 2)):
    t, d = cvec(v)
    w = (a ** 3, a * b * b, b ** 3)
    den = sum(x * y for x, y in zip(w, d))
    return Fraction(sum(x * y for x, y in zip(w, t)), 1) / den if den else 0


def moreno2(v):
    return v[:1] + (2 * v[1], 2 * v[2], v[3], 2 * v[4], v[5], 2 * v[6], 2 * v[7], v[8], 2 * v[9])


def weighted(v, w):
    return sum(Fraction(x) * c for x, c in zip(w, parts(v)))


def brodka(t, i, th):
    ns = [j for j in t.nodes if j != i and sum(1 for l in t.layers if t.has(i, j, l)) >= th]
    if not ns:
        return 0
    return Fraction(sum(t.a(h, v, l) + t.a(v, h, l) for l in t.layers for v in ns for h in ns), 2 * len(ns) * len(t.layers))


def battiston(t, i, which):
    s = d = 0
    o = [v for v in t.nodes if v != i]
    for a in t.layers:
        for b in t.layers:
            if which == 1 and b == a:
                d += sum(1 for v in o for h in o if t.has(i, v, a) and t.has(h, i, a))
            if b == a:
                continue
            if which == 1:
                s += sum(1 for v in o for h in o if t.has(i, v, a) and t.has(v, h, b) and t.has(h, i, a))
            else:
                d += sum(1 for v in o for h in o if t.has(i, v, a) and t.has(h, i, b))
                s += sum(1 for g in t.layers if g not in (a, b) for v in o for h in o if t.has(i, v, a) and t.has(v, h, g) and t.has(h, i, b))
    return Fraction(s, d) / (len(t.layers) - which) if d else UNDEF


def criado(t, i):
    nb = [j for j in t.nodes if j != i and any(t.has(i, j, l) for l in t.layers)]
    s = d = 0
    for l in t.layers:
        g = [j for j in nb if (j, l) in t.here]
        s += sum(1 for x in g for y in g if t.has(x, y, l))
        d += len(g) * (len(g) - 1)
    return Fraction(s, d) if d else UNDEF


def supra(t, nls):
    """triangles and connected triples of the graph of node-layers"""
    def linked(x, y):
        return x != y and (x[1] == y[1] and t.has(x[0], y[0], x[1]) or x[0] == y[0] and x in t.here and y in t.here)
    num = den = 0
    for x in nls:
        ns = [y for y in nls if linked(x, y)]
        num += sum(1 for a, b in itertools.combinations(ns, 2) if linked(a, b))
        den += len(ns) * (len(ns) - 1) // 2
    return num, den


# --------------------------------------------------------------------- obligations
def call(fl, name, *args, **kw):
    fn = fl.resolve_global(CC[:-1], name)
    if fn is None:
        raise Unsupported("no function " + name)
    return fl.call_value(fn, list(args), kw, None)


def third(n):
    return n if not isinstance(n, Fraction) else float(n)


def obligations(fl, t, group, turn=None):
    """(function, text of the call, thunk, expected value)"""
    net, ns, ls = build(fl, t)
    i = ns[0]
    if group == "mono":
        yield "cc_num_den", "node", lambda: call(fl, "cc_num_den", net, i), triads(t, 0)
        yield "lcc", "node", lambda: call(fl, "lcc", net, i, undefReturn=UNDEF), lcc(t, 0)
        yield "lcc", "default", lambda: call(fl, "lcc", net, i), or0(lcc(t, 0))
        yield "cc_zhang", "node", lambda: call(fl, "cc_zhang", net, i, undefReturn=UNDEF), zhang(t, [0])
        yield "gcc_zhang", "", lambda: call(fl, "gcc_zhang", net), none(zhang(t, t.nodes))
        yield "cc_onnela", "node", lambda: call(fl, "cc_onnela", net, i, undefReturn=UNDEF), onnela(t, 0)
        yield "cc_barrat", "node", lambda: call(fl, "cc_barrat", net, i, undefReturn=UNDEF), barrat(t, 0)
        ds = [lcc(t, a) for a in t.nodes]
        ds = [x for x in ds if x is not UNDEF]
        yield "gcc_from_lcc", "lcc", lambda: call(fl, "gcc_from_lcc", net, fl.resolve_global(CC[:-1], "lcc")), \
            sum(ds) / Fraction(len(ds)) if ds else None
        return
    agg = lambda: fl.call_value(fl.resolve_global("pymnet.transforms", "aggregate"), [net, 1], {}, None)
    anet = agg()
    if group == "barrett":
        w = barrett(t, 0)
        for f in ("cc_barrett", "cc_barrett_optimized"):
            yield f, "node", (lambda f=f: call(fl, f, net, i, anet)), or0(w)
        yield "cc_barrett_explicit", "node", lambda: call(fl, "cc_barrett_explicit", net, i, undefReturn=UNDEF), w
        return
    s = ls[0]
    if turn is None or not turn % 4:
        vs = sorted(flat(cycles(t, [(a, l)])) for a in t.nodes for l in t.layers)
        yield "cc_aw_vector", "", lambda: sorted(zip(*call(fl, "cc_aw_vector", net))), vs
    at = (0, 0)
    layer_cells = [(a, 0) for a in t.nodes]
    every = sorted(t.here)
    own = [(0, l) for l in t.layers]
    tri = [triads(t, 0, l) for l in t.layers]
    yield "cc_sequence", "node", lambda: call(fl, "cc_sequence", net, i), tuple(list(z) for z in zip(*tri))
    if sum(d for _, d in tri):
        yield "cc_layers_wavg", "node", lambda: call(fl, "cc_layers_wavg", net, i), Fraction(sum(n for n, _ in tri), sum(d for _, d in tri))
    if all(d for _, d in tri):
        yield "cc_layers_avg", "node", lambda: call(fl, "cc_layers_avg", net, i), sum(Fraction(n, d) for n, d in tri) / len(tri)
    at_all = [triads(t, a, l) for a in t.nodes for l in t.layers]
    yield "gcc_super_graph_no_couplings", "", lambda: call(fl, "gcc_super_graph_no_couplings", net), \
        Fraction(sum(n for n, _ in at_all), sum(d for _, d in at_all)) if sum(d for _, d in at_all) else None
    n, d = supra(t, [(a, l) for a in t.nodes for l in t.layers])
    yield "gcc_super_graph", "", lambda: call(fl, "gcc_super_graph", net), Fraction(n, d) if d else None
    v = cycles(t, [at])
    yield "cc_cycle_vector_bf", "node, layer", lambda: call(fl, "cc_cycle_vector_bf", net, i, s), v
    yield "elementary_cycles", "node, layer", lambda: call(fl, "elementary_cycles", net, i, s), v
    yield "elementary_cycles", "node", lambda: call(fl, "elementary_cycles", net, i), cycles(t, own)
    yield "elementary_cycles", "node, aggregated", lambda: call(fl, "elementary_cycles", net, i, anet=anet), cycles(t, own)
    yield "elementary_cycles", "layer", lambda: call(fl, "elementary_cycles", net, layer=s), cycles(t, layer_cells)
    yield "elementary_cycles", "", lambda: call(fl, "elementary_cycles", net), cycles(t, every)
    if t.full:
        yield "cc_cycle_vector_anet", "node, layer", lambda: call(fl, "cc_cycle_vector_anet", net, i, s, anet=anet), v
        yield "cc_cycle_vector_anet", "node", lambda: call(fl, "cc_cycle_vector_anet", net, i, anet=anet), cycles(t, own)
    # every weighting on the smallest networks, one of each function's in turn on the others
    for k, (name, g) in enumerate(itertools.groupby(weightings(fl, net, i, s, t, anet, v), lambda x: x[0])):
        g = list(g)
        if turn is None:
            for x in g:
                yield x
        elif (turn + k) % 3 == 0:
            yield g[(turn // 3) % len(g)]
    for th in range(1, len(t.layers) + 1):
        w = brodka(t, 0, th)
        yield "lcc_brodka", "threshold=%d" % th, (lambda th=th: call(fl, "lcc_brodka", net, i, threshold=th)), w
        yield "lcc_brodka", "threshold=%d, aggregated" % th, (lambda th=th: call(fl, "lcc_brodka", net, i, anet=anet, threshold=th)), w
    yield "lcc_brodka", "threshold=all", lambda: call(fl, "lcc_brodka", net, i, threshold="all"), brodka(t, 0, len(t.layers))
    if t.full:
        yield "lcc_battiston1", "node", lambda: call(fl, "lcc_battiston1", net, i, undefReturn=UNDEF), battiston(t, 0, 1)
        yield "lcc_battiston2", "node", lambda: call(fl, "lcc_battiston2", net, i, undefReturn=UNDEF), \
            battiston(t, 0, 2) if len(t.layers) > 2 else UNDEF
    yield "lcc_criado", "node", lambda: call(fl, "lcc_criado", net, i, undefReturn=UNDEF), criado(t, 0)
    yield "lcc_criado", "aggregated", lambda: call(fl, "lcc_criado", net, i, undefReturn=UNDEF, anet=anet), criado(t, 0)


def weightings(fl, net, i, s, t, anet, v):
    every, own = sorted(t.here), [(0, l) for l in t.layers]
    yield "lcc_aw", "node, layer", lambda: call(fl, "lcc_aw", net, i, s), blend(v)
    yield "lcc_aw", "w1, w2", lambda: call(fl, "lcc_aw", net, i, s, w1=0.75, w2=0.25), blend(v, Fraction(3, 4), Fraction(1, 4))
    yield "lcc_aw", "w1, w2, w3", lambda: call(fl, "lcc_aw", net, i, s, w1=0.5, w2=0.25, w3=0.125), weighted(v, (0.5, 0.25, 0.125))
    yield "lcc_aw", "vector", lambda: call(fl, "lcc_aw", net, i, s, returnCVector=True), parts(v)
    o = cycles(t, own)
    yield "sncc_aw", "node", lambda: call(fl, "sncc_aw", net, i), blend(o)
    yield "sncc_aw", "w1, w2", lambda: call(fl, "sncc_aw", net, i, w1=0.75, w2=0.25), blend(o, Fraction(3, 4), Fraction(1, 4))
    yield "sncc_aw", "w1, w2, w3", lambda: call(fl, "sncc_aw", net, i, w1=0.5, w2=0.25, w3=0.125), weighted(o, (0.5, 0.25, 0.125))
    yield "sncc_aw", "vector, aggregated", lambda: call(fl, "sncc_aw", net, i, returnCVector=True, anet=anet), parts(o)
    yield "sncc_aw_layercost", "node", lambda: call(fl, "sncc_aw_layercost", net, i, 0.75, 0.25), blend(o, Fraction(3, 4), Fraction(1, 4))
    e = cycles(t, every)
    yield "gcc_aw", "", lambda: call(fl, "gcc_aw", net), blend(e)
    yield "gcc_aw", "w1, w2", lambda: call(fl, "gcc_aw", net, w1=0.75, w2=0.25), blend(e, Fraction(3, 4), Fraction(1, 4))
    yield "gcc_aw", "w1, w2, w3", lambda: call(fl, "gcc_aw", net, w1=0.5, w2=0.25, w3=0.125), weighted(e, (0.5, 0.25, 0.125))
    yield "gcc_aw", "vector", lambda: call(fl, "gcc_aw", net, returnCVector=True), parts(e)
    m = moreno2(e)
    yield "gcc_moreno2_seplayers", "", lambda: call(fl, "gcc_moreno2_seplayers", net, w1=0.5, w2=0.25, w3=0.125), weighted(m, (0.5, 0.25, 0.125))
    yield "gcc_moreno2_seplayers", "w3=None", lambda: call(fl, "gcc_moreno2_seplayers", net, w1=0.75, w2=0.25, w3=None), blend(m, Fraction(3, 4), Fraction(1, 4))
    yield "sncc_aw_seplayers", "node", lambda: call(fl, "sncc_aw_seplayers", net, i, w1=0.5, w2=0.25, w3=0.125, undefined=UNDEF), \
        weighted(o, (0.5, 0.25, 0.125)) if all(cvec(o)[1]) else UNDEF
    if every:
        vs = [cycles(t, [x]) for x in every]
        yield "avg_lcc_aw", "", lambda: call(fl, "avg_lcc_aw", net), sum(blend(x) for x in vs) / Fraction(len(vs))
        yield "avg_lcc_aw", "vector", lambda: call(fl, "avg_lcc_aw", net, returnCVector=True), \
            tuple(sum(parts(x)[k] for x in vs) / Fraction(len(vs)) for k in range(3))


def or0(v):
    return 0 if v is UNDEF else v


def none(v):
    return None if v is UNDEF else v


def same(got, want):
    if isinstance(want, (tuple, list)):
        return isinstance(got, (tuple, list)) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, Sym) or want is None:
        return got is want or got == want
    if isinstance(got, Alg) or isinstance(want, Alg):
        if not isinstance(got, (Alg, int, float)):
            return False
        return Alg.same(got, want)
    return isinstance(got, (int, float)) and not isinstance(got, bool) and abs(got - float(want)) < 1e-9


def show(v):
    return str(float(v)) if isinstance(v, Fraction) else "(%s)" % ", ".join(map(show, v)) if isinstance(v, (tuple, list)) else repr(v)


def run(job):
    group, kind, tier, part, of = job
    nets = mono_nets(tier) if group == "mono" else \
        (Net(len(t.nodes), len(t.layers), list(t.w), set((a, l) for a in t.nodes for l in t.layers) - t.here, t.full, True)
         for t in mplex_nets(kind, tier)) if group == "barrett" else \
        mplex_nets(kind, tier)
    bad, abst, paths, reached = [], [], 0, set()
    failed = set()
    fl = Flow(_PKG[0])
    fl.maxsteps = 10 ** 7
    for no, t in enumerate(nets):
        if no % of != part:
            continue

        def sc(f):
            out = []
            for name, how, thunk, want in obligations(f, t, group, no // of if kind in ("full3", "part3", "four", "part2") else None):
                if name in failed:
                    continue
                try:
                    got = thunk()
                    b = None if same(got, want) else "%s(%s) is %s, by the definition %s" % (name, how, show(got), show(want))
                    if got is UNK:
                        raise Unsupported("unknown value")
                except PyRaise as e:
                    b = "%s(%s): an exception is raised: %s (%s) at %s" % (name, how, e.name, e.msg, e.where)
                except Unsupported as e:
                    out.append((name, None, str(e)))
                    continue
                out.append((name, b, None))
            return {"out": out}
        for facts, r in fl.explore(sc):
            if isinstance(r, tuple):
                abst.append(r[1])
                continue
            if facts:
                abst.append("a decision on an unknown value: %s" % (sorted(facts)[0],))
                continue
            for name, b, un in r["out"]:
                if un:
                    abst.append("%s: %s" % (name, un))
                    continue
                paths += 1
                if b and name not in failed:
                    failed.add(name)
                    bad.append((b, [t.text()]))
    return dict(job=("P18", group, kind), paths=paths, bad=bad, abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    from ..model import loc
    res = Result()
    _PKG[0] = pkg
    jobs = [("cycles", k, tier, p, n) for k, n in (("full3", 16), ("part3", 32), ("four", 16), ("part2", 4), ("full2", 2)) for p in range(n)]
    jobs += [("mono", "", tier, p, 4) for p in range(4)] + [("barrett", k, tier, p, n) for k, n in (("full2", 4), ("part2", 8)) for p in range(n)]
    rs = pmap(run, jobs)
    seen = set()
    for r in rs:
        keep = []
        for b, facts in r["bad"]:
            f = b.split("(")[0]
            if f not in seen:
                seen.add(f)
                keep.append((b, facts))
        r["bad"] = keep
    place = dict((q, loc(n)) for q, n in pkg.functions.items() if q.startswith(CC))
    for r in rs:
        r["bad"] = [(b if " at " in b else "%s at %s" % (b, place.get(CC + b.split("(")[0], "pymnet/cc.py")), facts) for b, facts in r["bad"]]
    report(res, rs, "clustering coefficients", lambda j: "pymnet/cc.py")
    res.counts["functions_compared"] = len([1 for q in place if any(q in r["reached"] for r in rs)])
    res.rule = "clustering coefficients and cycle counts equal the value of their definition, as exact fractions or as rational functions of the link weights"
    res.explanation = ("Abstract interpretation of the clustering coefficients on networks over representative node-layers with every pattern "
                       "of links and memberships up to renaming; weights are symbols, results are compared with the definition as rational functions.")
    return res
