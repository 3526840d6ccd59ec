"""P15: degree distributions, densities and overlap degrees count exactly the
nodes, node-layers and links of the network."""
import itertools
from .world import *
from .links import report
from .derived import source, tiny, tup, uniq

LEVEL = "other"
D = "pymnet.diagnostics."


def call(fl, name, *args, **kw):
    fn = fl.resolve_global(D[:-1], name)
    if fn is None:
        raise Unsupported("no function " + name)
    return fl.call_value(fn, list(args), kw, None)


def degree(c, x, ok=lambda y: True):
    return len(uniq(y for y in c.nls if ok(y) and ((x, y) in c.links or (y, x) in c.links)))


def bare(x):
    return x[0] if len(x) == 1 else x


def same_dict(got, want, what):
    """got: interpreted dictionary; want: list of (key, value)"""
    if not isinstance(got, PDict):
        return "%s is %r" % (what, got)
    items = [(unwrap(k), v) for k, v in got.items_]
    a = sorted(key(k) for k, _ in items)
    b = sorted(key(k) for k, _ in want)
    if a != b:
        return "%s has the keys %s instead of %s" % (what, a, b)
    for k, v in want:
        for k2, v2 in items:
            if key(k) == key(k2):
                if isinstance(v, list):
                    r = same_dict(v2, v, "%s[%s]" % (what, key(k)))
                    if r:
                        return r
                elif not same(v2, v):
                    return "%s[%s] is %r instead of %r" % (what, key(k), v2, v)
    return None


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9
    return a == b


def histogram(ds):
    return [(d, ds.count(d)) for d in uniq(ds)]


def nodes_of(c):
    return [(e,) for e in c.elems[0]] if c.aspects == 0 else c.nls


def intra(c, w, layer):
    """nodes, links of one layer"""
    ns = [x for x in c.nls if w.lay(x) == layer]
    return ns, {k: v for k, v in c.links.items() if w.lay(k[0]) == layer and w.lay(k[1]) == layer}


def layers_of(w, c):
    return uniq(bare(tuple(x)) for x in itertools.product(*c.elems[1:]))


def n_edges(c, links):
    return len(links) if c.directed else len(uniq(tuple(sorted((key(x), key(y)))) for x, y in links))


def dens(n, m, directed):
    p = n * (n - 1) if directed else n * (n - 1) / 2
    return m / float(p) if p else 0


def sc_degs(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        c = source(fl, w)
        ns = nodes_of(c)
        c.nls = ns if c.aspects == 0 else c.nls
        ds = [(bare(x), degree(c, x)) for x in ns]
        got = call(fl, "degs", w.net, **({"degstype": opt} if opt else {}))
        return same_dict(got, ds if opt == "nodes" else histogram([d for _, d in ds]), "degs")
    return sc


def sc_density(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        c = source(fl, w)
        got = call(fl, "density", w.net)
        n = len(nodes_of(c))
        want = dens(n, n_edges(c, c.links), c.directed)
        return None if same(got, want) else "density is %r instead of %r" % (got, want)
    return sc


def sc_mdensity(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        c = source(fl, w)
        want = []
        for l in layers_of(w, c):
            ns, ls = intra(c, w, l)
            want.append((l, dens(len(ns), n_edges(c, ls), c.directed)))
        return same_dict(call(fl, "multiplex_density", w.net), want, "multiplex_density")
    return sc


def sc_mdegs(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        c = source(fl, w)
        want = []
        for l in layers_of(w, c):
            ns, ls = intra(c, w, l)
            ds = [(x[0], len(uniq(y for y in ns if (x, y) in ls or (y, x) in ls))) for x in ns]
            want.append((l, ds if opt == "nodes" else histogram([d for _, d in ds])))
        got = call(fl, "multiplex_degs", w.net, **({"degstype": opt} if opt else {}))
        return same_dict(got, want, "multiplex_degs")
    return sc


def sc_overlap(spec, opt):
    def sc(fl):
        w = tiny(fl, spec)
        c = source(fl, w)
        got = call(fl, "overlap_degs", w.net)
        if not isinstance(got, PDict):
            return "overlap_degs is %r" % (got,)
        pos = {repr(e): k for k, e in enumerate(c.elems[1])}
        pairs = {}
        for (x, y) in c.links:
            if x[1:] == y[1:]:
                k = (x[0], y[0]) if c.directed else tuple(sorted((x[0], y[0]), key=repr))
                pairs.setdefault(k, set()).add(pos[repr(x[1])])
        want = {}
        for n in range(1, len(c.elems[1]) + 1):
            for comb in itertools.combinations(range(len(c.elems[1])), n):
                want[frozenset(comb)] = [(e, len(uniq(b if a == e else a for (a, b), ls in pairs.items() if ls == set(comb) and e in (a, b))))
                                         for e in c.elems[0]]
        have = {}
        for k, v in got.items_:
            have[frozenset(pos.get(repr(e), -1) for e in tup(k))] = v
        if len(have) != len(got.items_) or set(have) != set(want):
            return "the layer combinations are %s" % sorted(key(tup(k)) for k, _ in got.items_)
        for k, v in want.items():
            if not c.full and isinstance(have[k], PDict):
                # a node that is in none of the layers may be left out
                named = [key(unwrap(e)) for e, _ in have[k].items_]
                v = [(e, d) for e, d in v if key(e) in named or any(x[0] == e and pos[repr(x[1])] in k for x in c.nls)]
            r = same_dict(have[k], v, "overlap_degs of layers %s" % sorted(k))
            if r:
                return r
        return None
    return sc


MAKERS = {"degs": sc_degs, "density": sc_density, "multiplex_density": sc_mdensity, "multiplex_degs": sc_mdegs, "overlap_degs": sc_overlap}


def jobs_for(tier):
    r = []
    for s in SPECS + LATE + MIXED:
        r += [(s, "degs", o) for o in (None, "distribution", "nodes")] + [(s, "density", None)]
        if s[0] == "MX":
            r += [(s, "multiplex_degs", o) for o in (None, "distribution", "nodes")] + [(s, "multiplex_density", None)]
            if s[1] == 1:
                r.append((s, "overlap_degs", None))
    return r


def run(job):
    fl = Flow(_PKG[0])
    fl.maxsteps = 400000
    spec, what, opt = job
    make = MAKERS[what](spec, opt)

    def sc(f):
        f.free, f.sums_differ = set(), False
        try:
            b = make(f)
        except PyRaise as e:
            b = "an exception is raised: %s (%s) at %s" % (e.name, e.msg, e.where)
        return {"bad": b} if b else {}
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(sc):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        if "bad" in r:
            bad.append((what + ": " + r["bad"], sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=("P15",) + job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    rs = pmap(run, jobs_for(tier))
    from ..model import loc
    report(res, rs, "diagnostics", lambda j: loc(pkg.functions[D + j[2]]) if D + j[2] in pkg.functions else "pymnet/diagnostics.py")
    res.rule = "degrees, densities and overlap degrees are the counts of the nodes and links their definition gives"
    res.explanation = ("Abstract interpretation of the diagnostics on networks with arbitrary content over representative node-layers; "
                       "every table returned is compared with the counts over the same content.")
    return res
