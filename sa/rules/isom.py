"""P12: isomorphism functions answer for exactly the isomorphic networks: the
reduction to a colored graph, the comparison, the complete invariant, the
mappings and the automorphisms, for every backend class."""
import itertools
from .world import *
from .derived import tiny, source, key
from .links import report
from ..flow import Native

LEVEL = "other"
ISO = "pymnet.isomorphisms"


class RecGraph(Inst):
    """a third-party graph object that records its colored nodes and its links"""

    def __init__(self):
        Inst.__init__(self, "$graph")
        self.nodes, self.links = [], set()
        a = self.attrs
        a["add_node"] = a["add_vertex"] = Native(self.add_node)
        a["add_edge"] = Native(self.add_edge)
        a["get_isomorphism"] = Native(self.get_isomorphism)
        a["canonical_labeling"] = Native(lambda args, kw: Canon(self))
        a["relabel"] = Native(lambda args, kw: args[0] if isinstance(args[0], Canon) and args[0].graph is self else UNK)
        a["find_automorphisms"] = Native(self.find_automorphisms)
        self.fl = None

    def add_node(self, args, kw):
        d = PDict(list(kw.items()))
        if len(args) > 1:
            d.items_.append(("color", args[1]))
        for n, old in self.nodes:
            if n == args[0]:
                for k, v in d.items_:
                    self.fl.dset(old, k, v)
                return None
        self.nodes.append((args[0], d))

    def add_edge(self, args, kw):
        for n in args[:2]:
            if all(n != m for m, _ in self.nodes):
                self.nodes.append((n, PDict()))
        self.links.add(frozenset(args[:2]))

    def color_match(self, fl):
        def same(d, e):
            c = [v for k, v in d.items_ if k == "color"]
            f = [v for k, v in e.items_ if k == "color"]
            return c == f
        return same

    def maps(self, other, same):
        """all isomorphisms to another recorded graph"""
        if len(self.nodes) != len(other.nodes) or len(self.links) != len(other.links):
            return
        cand = {n: [m for m, e in other.nodes if same(d, e)] for n, d in self.nodes}
        order = [n for n, _ in self.nodes]

        def rec(i, m):
            if i == len(order):
                yield dict(m)
                return
            n = order[i]
            for t in cand[n]:
                if t in m.values():
                    continue
                m[n] = t
                if all((frozenset((n, k)) in self.links) == (frozenset((t, m[k])) in other.links) for k in m):
                    for z in rec(i + 1, m):
                        yield z
                del m[n]
        for z in rec(0, {}):
            yield z

    def pick(self, fl, ms):
        ms = list(ms)
        if not ms:
            return None
        m = ms[0] if len(ms) == 1 or fl.choose(("which mapping", "first")) else ms[-1]
        return PDict(list(m.items()))

    def get_isomorphism(self, args, kw):
        return self.pick(self.fl, self.maps(args[0], self.color_match(self.fl)))

    def find_automorphisms(self, args, kw):
        for m in list(self.maps(self, self.color_match(self.fl))):
            self.fl.call_value(args[0], [PDict(list(m.items()))] + list(args[1:2] or [None]), {}, None)

    def canonical(self):
        cls = {}
        for n, d in self.nodes:
            cls.setdefault(repr([v for k, v in d.items_ if k == "color"]), []).append(n)
        keys = sorted(cls)
        best = None
        for ps in itertools.product(*[itertools.permutations(cls[k]) for k in keys]):
            pos, i = {}, 0
            for p in ps:
                for n in p:
                    pos[n] = i
                    i += 1
            s = repr(sorted(sorted(pos[n] for n in l) for l in self.links))
            if best is None or s < best:
                best = s
        return "canonical %s %s" % ([(k, len(cls[k])) for k in keys], best)


class Canon(Inst):
    def __init__(self, graph):
        Inst.__init__(self, "$canonical")
        self.graph = graph


def matcher(fl, f):
    if f is None:
        return lambda d, e: True
    return lambda d, e: fl.truth(fl.call_value(f, [d, e], {}, None))


def hooks(fl):
    def new(fl_, args, kw):
        g = RecGraph()
        g.fl = fl
        return g

    def is_iso(fl_, args, kw):
        g, h = args[:2]
        f = kw.get("node_match", args[2] if len(args) > 2 else None)
        return next(g.maps(h, matcher(fl, f)), None) is not None

    def graph_matcher(fl_, args, kw):
        g, h = args[:2]
        f = kw.get("node_match", args[2] if len(args) > 2 else None)
        o = Inst("$matcher")

        def run(a, k):
            m = g.pick(fl, g.maps(h, matcher(fl, f)))
            o.attrs["mapping"] = m if m is not None else PDict()
            return m is not None
        o.attrs["is_isomorphic"] = Native(run)
        o.attrs["isomorphisms_iter"] = Native(lambda a, k: Seq([PDict(list(m.items())) for m in g.maps(h, matcher(fl, f))]))
        o.attrs["mapping"] = PDict()
        return o

    def string(fl_, args, kw):
        v = args[0] if args else ""
        return v.graph.canonical() if isinstance(v, Canon) else v if isinstance(v, str) else UNK
    for n in ("networkx.Graph", "PyBliss.Graph", "networkx.classes.graph.Graph"):
        fl.hooks[("native", n)] = new
    for n in ("networkx.is_isomorphic", "networkx.algorithms.isomorphism.is_isomorphic"):
        fl.hooks[("native", n)] = is_iso
    for n in ("networkx.algorithms.isomorphism.GraphMatcher", "networkx.isomorphism.GraphMatcher"):
        fl.hooks[("native", n)] = graph_matcher
    fl.hooks[("native", "builtins.str")] = string


def api(fl):
    """the functions of the package, with the tables its module body fills"""
    m = fl.pkg.modules[ISO]
    env = {}
    fl.block([s for s in m.tree.body], env, ISO)
    return env


def content_maps(c, d, allowed):
    """every multilayer isomorphism between two contents"""
    axes = []
    for a in range(c.aspects + 1):
        if a not in allowed:
            axes.append([{e: e for e in c.elems[a]}])
        elif len(c.elems[a]) != len(d.elems[a]):
            return
        else:
            axes.append([dict(zip(c.elems[a], p)) for p in itertools.permutations(d.elems[a])])
    for ms in itertools.product(*axes):
        if respects(c, d, ms, allowed):
            yield ms


def same_fixed(c, d, allowed):
    """whether the aspects that are not mapped have the same elements: when only
    elements without node-layers differ, the definition does not settle the answer"""
    return all(a in allowed or sorted(map(repr, c.elems[a])) == sorted(map(repr, d.elems[a])) for a in range(c.aspects + 1))


def respects(c, d, ms, allowed):
    if any(e not in ms[a] for a in range(c.aspects + 1) for e in c.elems[a]):
        return False
    if any(sorted(repr(ms[a][e]) for e in c.elems[a]) != sorted(map(repr, d.elems[a])) for a in range(c.aspects + 1) if a in allowed):
        return False
    x = c.map(lambda a, e: ms[a][e])
    return sorted(map(key, x.nls)) == sorted(map(key, d.nls)) and \
        {(key(p), key(q)) for p, q in x.links} == {(key(p), key(q)) for p, q in d.links}


def read_perm(fl, perm, c, d, fixed, allowed):
    """a returned permutation as total maps, or what is wrong with it"""
    if not isinstance(perm, list) or len(perm) != c.aspects + 1 or not all(isinstance(m, PDict) for m in perm):
        return "a permutation is given as %r" % (perm,), None
    ms = []
    for a, m in enumerate(perm):
        t = {k: v for k, v in m.items_}
        if len(t) != len(m.items_):
            return "a name is mapped twice", None
        if any(k not in c.elems[a] for k in t):
            return "the map of aspect %d contains %s" % (a, sorted(map(repr, t))), None
        if fixed and len(t) != len(c.elems[a]):
            return "the map of aspect %d with fixed elements contains %s" % (a, sorted(map(repr, t))), None
        if not fixed and any(k == v for k, v in t.items()):
            return "the map of aspect %d contains a fixed element although they are not asked for" % a, None
        ms.append({e: t.get(e, e) for e in c.elems[a]})
    if not respects(c, d, ms, allowed):
        return "the mapping %s does not map the first network to the second" % ({repr(k): repr(v) for m in ms for k, v in m.items()},), None
    return None, ms


def scenario(spec, what, allowed, backend, variant, fixed):
    def sc(fl):
        hooks(fl)
        f = api(fl)
        if backend not in [k for k, _ in f["auxbuilder_backends"].items_]:
            raise Unsupported("backend " + backend)
        kw = {"backend": backend}
        al = list(range(spec[1] + 1)) if allowed == "all" else list(allowed)
        kw["allowed_aspects"] = allowed if allowed == "all" else list(allowed)
        w1 = tiny(fl, spec + ("1:",), rows=True)
        c1 = source(fl, w1)
        if what == "get_automorphism_generators":
            if fixed:
                kw["include_fixed"] = True
            r = fl.call_value(f[what], [w1.net], kw, None)
            if not isinstance(r, list):
                return "the generators are %r" % (r,)
            got = []
            for p in r:
                b, ms = read_perm(fl, p, c1, c1, fixed, al)
                if b:
                    return b
                if ms not in got:
                    got.append(ms)
            for ms in content_maps(c1, c1, al):
                if list(ms) not in got:
                    return "an automorphism is missing"
            return None
        w2 = tiny(fl, spec + ("2:",) + (variant,), rows=True)
        c2 = source(fl, w2)
        iso = next(content_maps(c1, c2, al), None) is not None
        open_ = iso and not same_fixed(c1, c2, al)
        if what == "get_complete_invariant":
            a = fl.call_value(f[what], [w1.net], dict(kw), None)
            b = fl.call_value(f[what], [w2.net], dict(kw), None)
            if fl.eq(a, b) != iso and not open_:
                return "the invariants are %s although the networks are %sisomorphic" % ("different" if iso else "the same", "" if iso else "not ")
            return None
        if what == "get_isomorphism" and fixed:
            kw["include_fixed"] = True
        r = fl.call_value(f[what], [w1.net, w2.net], kw, None)
        if what == "is_isomorphic":
            if r is not True and r is not False:
                raise Unsupported("answer %r" % (r,))
            if r != iso and not open_:
                return "the answer is %s although the networks are %sisomorphic" % (r, "" if iso else "not ")
            return None
        if r is None:
            return "no isomorphism is given although there is one" if iso and not open_ else None
        b, ms = read_perm(fl, r, c1, c2, fixed, al)
        return b
    return sc


USPECS = [("ML", 0, False, True, None), ("ML", 1, False, True, None), ("ML", 1, False, False, None),
          ("MX", 1, False, True, ("none",)), ("MX", 1, False, False, CAT), ("MX", 1, False, True, CAT)]
BACKENDS = (("nx", ("is_isomorphic", "get_isomorphism")),
            ("bliss", ("is_isomorphic", "get_isomorphism", "get_complete_invariant", "get_automorphism_generators")))


WIDE = ("ML", 1, False, False, None)
QUICK_WIDE = {("is_isomorphic", (0,), "nx", 0, False), ("get_complete_invariant", (1,), "bliss", 0, False),
              ("get_isomorphism", (0,), "nx", 0, True), ("is_isomorphic", "all", "bliss", 0, False),
              ("get_automorphism_generators", "all", "bliss", 0, False), ("get_automorphism_generators", (0,), "bliss", 0, True),
              ("get_automorphism_generators", (1,), "bliss", 0, True)}


def jobs_for(tier):
    r = []
    for s in USPECS:
        als = ["all"] if s[1] == 0 else ["all", (0,), (1,)]
        for b, fs in BACKENDS:
            for f in fs:
                for al in als:
                    for v in (0, 1):
                        if f == "get_automorphism_generators" and v:
                            continue
                        if v and al == "all" and tier == "quick" and s != USPECS[0]:
                            continue
                        fx = (False, True) if f in ("get_isomorphism", "get_automorphism_generators") else (False,)
                        if tier == "quick" and len(fx) == 2 and (v or b == "bliss") and f == "get_isomorphism":
                            fx = fx[:1]
                        r += [(s, f, al, b, v, x) for x in fx]
    if tier == "quick":
        r = [j for j in r if j[0] != WIDE or j[1:] in QUICK_WIDE]
    return sorted(r, key=lambda j: j[0] != WIDE)


def run(job):
    fl = Flow(_PKG[0])
    fl.maxsteps = 400000
    make = scenario(*job)

    def sc(f):
        f.free, f.sums_differ = set(), False
        try:
            b = make(f)
        except PyRaise as e:
            b = "an exception is raised: %s (%s) at %s" % (e.name, e.msg, e.where)
        return {"bad": b} if b else {}
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(sc):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        if "bad" in r:
            bad.append((job[1] + ": " + r["bad"], sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=("P12",) + job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    from ..model import loc
    res = Result()
    _PKG[0] = pkg
    rs = pmap(run, jobs_for(tier))
    report(res, rs, "isomorphisms", lambda j: loc(pkg.functions[ISO + "." + j[2]]) if ISO + "." + j[2] in pkg.functions else "pymnet/isomorphisms")
    res.rule = "every isomorphism function gives the answer its definition gives, for each backend, given that the backend library is correct"
    res.explanation = ("Abstract interpretation of the reduction to colored graphs and of the functions built on it, for pairs of networks with "
                       "arbitrary content over representative node-layers; the third-party graph library is replaced by its specification.")
    return res
