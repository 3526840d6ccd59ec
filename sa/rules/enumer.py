"""P14: the subgraph samplers find every acceptable induced subgraph exactly
once, with the probability asked for."""
import ast, itertools
from .world import *
from .links import meth, report
from ..alg import Alg
from ..flow import Fn

LEVEL = "other"
NODES, LAYERS = ("i", "j", "h", "k"), ("s", "u", "r")
SAMPLERS = {"esu": "pymnet.sampling.esu.sample_multilayer_subgraphs_esu", "dumb": "pymnet.sampling.dumb.dumb_enumeration"}
REQS = "pymnet.sampling.reqs."


def subsets(xs, most=None):
    xs = list(xs)
    for n in range((len(xs) if most is None else most) + 1):
        for c in itertools.combinations(xs, n):
            yield c


def contents(n, L, links=None):
    cells = [(a, l) for a in range(n) for l in range(L)]
    for here in subsets(cells):
        if not here:
            continue
        ps = list(itertools.combinations(here, 2))
        for c in subsets(ps, links and min(links, len(ps))):
            yield here, c


def some(n, L, links, count, salt):
    """representative contents, spread evenly; mostly full enough to hold larger subgraphs"""
    cells = [(a, l) for a in range(n) for l in range(L)]
    r, x, seen = [], salt, set()
    while len(r) < count:
        x = (x * 1103515245 + 12345) % 2 ** 31
        k, drop = x >> 12, (x >> 5) % 4
        here = [c for q, c in enumerate(cells) if not (drop and (k >> q) % 4 == drop and q)]
        ps = list(itertools.combinations(here, 2))
        if not ps:
            continue
        m = 2 + k % (links - 1)
        pick, z = set(), x
        for _ in range(m):
            z = (z * 69069 + 1) % 2 ** 32
            pick.add(ps[(z >> 9) % len(ps)])
        key = (tuple(here), tuple(sorted(pick)))
        if key not in seen:
            seen.add(key)
            r.append(key)
    return r


# ------------------------------------------------------------------ definition
def induced(content, ns, ls):
    here = [c for c in content[0] if c[0] in ns and c[1] in ls]
    return here, [e for e in content[1] if all(c in here for c in e)]


def connected(here, links):
    if not here:
        return False
    todo, seen = [here[0]], {here[0]}
    while todo:
        x = todo.pop()
        for a, b in links:
            for p, q in ((a, b), (b, a)):
                if p == x and q not in seen:
                    seen.add(q)
                    todo.append(q)
    return len(seen) == len(here)


def relaxed(content, ns, ls):
    here, links = induced(content, ns, ls)
    return connected(here, links) and all(any(c[0] == a for c in here) for a in ns) and all(any(c[1] == l for c in here) for l in ls)


def strict(content, ns, ls, sizes, inter, kind):
    if not relaxed(content, ns, ls):
        return False
    here = induced(content, ns, ls)[0]
    on = dict((l, set(a for a, m in here if m == l)) for l in ls)
    roles = [c for k in range(2, len(ls) + 1) for c in itertools.combinations(range(len(ls)), k)]
    for perm in itertools.permutations(ls):
        if any(len(on[l]) != s for l, s in zip(perm, sizes)):
            continue
        ok = True
        for c, want in zip(roles, inter):
            k = len(set.intersection(*[on[perm[x]] for x in c]))
            if want is not None and (k != want if kind == "strict" else k > want):
                ok = False
        if ok:
            return True
    return False


def expected(content, n, L, req):
    """{(nodes, layers)} of the acceptable subgraphs"""
    nn, nl, sizes, inter, kind = req
    return set((ns, ls) for ns in itertools.combinations(range(n), nn) for ls in itertools.combinations(range(L), nl)
               if (relaxed(content, ns, ls) if sizes is None else strict(content, ns, ls, sizes, inter, kind)))


def arguments(req):
    nn, nl, sizes, inter, kind = req
    if sizes is None:
        return {"nnodes": nn, "nlayers": nl}
    d = {"sizes": list(sizes), "intersections": inter if isinstance(inter, int) else list(inter)}
    if isinstance(inter, int) or None in inter or kind != "strict":
        d["nnodes"] = nn
    if kind != "strict":
        d["intersection_type"] = kind
    return d


def normal(req):
    """a common intersection given as a number stands for a list"""
    nn, nl, sizes, inter, kind = req
    if isinstance(inter, int):
        inter = [None] * (2 ** len(sizes) - len(sizes) - 2) + [inter]
    return nn, nl, sizes, inter, kind


SIZED = [(3, 2, (2, 2), (1,), "strict"), (2, 2, (2, 1), (1,), "strict"), (2, 2, (1, 1), (0,), "strict"), (2, 2, (2, 2), (2,), "strict"),
         (3, 2, (3, 1), (1,), "strict"), (3, 2, (2, 1), (0,), "strict"), (3, 2, (2, 2), (None,), "strict"), (3, 2, (2, 3), 2, "strict"),
         (2, 2, (2, 1), (None,), "strict"), (3, 2, (2, 2), (2,), "less_or_equal"), (2, 2, (1, 2), (1,), "less_or_equal"),
         (3, 2, (3, 2), (1,), "less_or_equal"), (3, 2, (2, 2), (0,), "less_or_equal"), (2, 2, (1, 2), (0,), "less_or_equal"),
          (2, 1, (2,), (), "strict")]
SIZED3 = [(2, 3, (1, 1, 2), (0, 1, 1, 0), "strict"), (2, 3, (2, 1, 1), (1, 1, 1, 1), "strict"), (2, 3, (1, 1, 1), (None, None, None, 0), "strict"),
          (2, 3, (2, 2, 1), 1, "strict"), (2, 3, (1, 2, 2), (1, 1, 2, 1), "strict"), (2, 3, (2, 1, 1), (1, 1, 1, 0), "less_or_equal"),
          (2, 3, (1, 2, 1), (1, None, 1, None), "strict")]


# --------------------------------------------------------------------- network
def build(fl, content, n, L):
    full = len(content) > 2 or len(content[0]) == n * L and len(content[1]) % 2 == 1
    net = fl.call_value(ClassRef(ML), [], {"aspects": 1, "fullyInterconnected": full}, None)
    ns, ls = [Sym(x, "name") for x in NODES[:n]], [Sym(x, "name") for x in LAYERS[:L]]
    for l in ls:
        meth(fl, net, "add_layer", l)
    for x in ns:
        meth(fl, net, "add_node", x)
    for a, l in content[0] if not full else ():
        meth(fl, net, "add_node", ns[a], ls[l])
    for (a, l), (b, m) in content[1]:
        fl.setitem(net, (ns[a], ns[b], ls[l], ls[m]), 1, None)
    return net, ns, ls


def is_connected(fl, args, kw):
    g = args[0]
    todo = [unwrap(x) for x in fl.iterate(g)]
    if not todo:
        raise PyRaise("NetworkXPointlessConcept", "Connectivity is undefined for the null graph.")
    every, seen, todo = len(todo), todo[:1], todo[:1]
    links = [unwrap(e) for e in fl.iterate(fl.attr(g, "edges", None))]
    while todo:
        x = todo.pop()
        for e in links:
            for a, b in ((e[0], e[1]), (e[1], e[0])):
                if fl.eq(a, x) and not any(fl.eq(b, z) for z in seen):
                    seen.append(b)
                    todo.append(b)
    return len(seen) == every


def string(fl, args, kw):
    return Sym("'%r'" % (args[0],), "name") if args and isinstance(args[0], (tuple, Sym)) else args[0] if args and isinstance(args[0], str) else UNK


def hooks(fl):
    fl.hooks[("native", "builtins.str")] = string
    for n in ("pymnet.nxwrap.is_connected", "networkx.is_connected"):
        fl.hooks[("native", n)] = is_connected
    fl.hooks[("native", "random.random")] = lambda f, a, k: Sym(f.fresh("rnd"), "unit")
    fl.hooks[("native", "random.seed")] = lambda f, a, k: None


def read(fl, v, ns, ls):
    """the found subgraphs as sorted index tuples"""
    out = []
    for x in v:
        if not isinstance(x, tuple) or len(x) != 2 or not all(isinstance(y, list) for y in x):
            return None
        out.append((tuple(sorted(ns.index(y) for y in x[0])), tuple(sorted(ls.index(y) for y in x[1]))))
    return out


def text(content, req=None):
    w = lambda c: "(%s,%s)" % (NODES[c[0]], LAYERS[c[1]])
    t = "node-layers %s, links %s" % (" ".join(map(w, content[0])), " ".join(w(a) + "-" + w(b) for a, b in content[1]) or "none")
    return t if req is None else t + ", asked for " + ", ".join("%s=%s" % x for x in sorted(arguments(req).items()))


def show(x):
    return "(%s | %s)" % (" ".join(NODES[a] for a in x[0]), " ".join(LAYERS[a] for a in x[1]))


# ------------------------------------------------------------------- obligations
def search(fl, which, content, n, L, req, kw, collect):
    net, ns, ls = build(fl, content, n, L)
    found = []
    args = dict(arguments(req), **kw)
    if collect and req[2] is None:  # the acceptance test is the user's
        args["custom_check_function"] = Fn(fl.pkg.functions[REQS + "relaxed_check_reqs"], REQS[:-1])
    out = found if not collect else Fn(ast.parse("lambda x: found.append(x)", mode="eval").body, "pymnet.net", {"found": found})
    fn = SAMPLERS[which]
    fl.call_value(Fn(fl.pkg.functions[fn], fn.rpartition(".")[0]), [net, out], args, None)
    got = read(fl, found, ns, ls)
    if got is None:
        return "a result is not a pair of lists: %r" % (found[:1],)
    want = expected(content, n, L, normal(req))
    for x in sorted(set(got)):
        if x not in want:
            return "%s is returned and is not acceptable" % show(x)
        if got.count(x) > 1:
            return "%s is returned %d times" % (show(x), got.count(x))
    for x in sorted(want):
        if x not in got:
            return "%s is acceptable and not returned" % show(x)
    return None


def checked(fl, content, n, L, req, ns_, ls_):
    """the acceptance test itself"""
    net, ns, ls = build(fl, content, n, L)
    r = normal(req)
    a = [net, [ns[x] for x in ns_], [ls[x] for x in ls_]]
    if r[2] is None:
        fn, want = "relaxed_check_reqs", relaxed(content, ns_, ls_)
    else:
        fn, want = "default_check_reqs", strict(content, ns_, ls_, r[2], r[3], r[4])
        a += [list(r[2]), list(r[3]), r[0], r[1], r[4]]
    got = fl.call_value(Fn(fl.pkg.functions[REQS + fn], REQS[:-1]), a, {}, None)
    return None if got is want else "%s answers %r for %s" % (fn, got, show((ns_, ls_)))


def lengths(fl, sizes, inter):
    got = fl.call_value(Fn(fl.pkg.functions[REQS + "default_calculate_required_lengths"], REQS[:-1]), [list(sizes), list(inter)], {}, None)
    k, it = sum(sizes), iter(inter)
    for m in range(2, len(sizes) + 1):
        for _ in itertools.combinations(sizes, m):
            k += next(it) * (-1 if m % 2 == 0 else 1)
    return None if got == (k, len(sizes)) else "the required lengths of sizes %s, intersections %s are %r instead of %r" % (list(sizes), list(inter), got, (k, len(sizes)))


def cases(kind, tier):
    few = tier == "quick"
    if kind == "small":
        for n, L in ((2, 2), (3, 1), (1, 3)):
            rs = [(a, b, None, None, None) for a in range(1, n + 1) for b in range(1, L + 1)] + ([r for r in SIZED if r[0] <= n and r[1] <= L])
            for q, c in enumerate(contents(n, L)):
                for z, r in enumerate(rs):
                    if not few or (q + z) % 2 == 0 or r[:2] == (n, L) and r[2] is None:
                        yield ("esu", c, n, L, r, q % 2 == 0, (q + z) % 3 == 0)
                        if (q + z) % 3 == 1:
                            yield ("dumb", c, n, L, r, True, (q + z) % 2 == 0)
    elif kind == "large":
        for n, L, m, links, pool in ((3, 2, 260 if few else 3000, 7, SIZED), (2, 3, 220 if few else 2000, 7, SIZED3), (4, 1, 40, 5, []), (4, 2, 60 if few else 600, 6, [])):
            rs = [(a, b, None, None, None) for a in range(1, n + 1) for b in range(1, L + 1) if a + b > 3] or [(n, L, None, None, None)]
            for q, c in enumerate(some(n, L, links, m, n * 7 + L)):
                yield ("esu", c, n, L, rs[q % len(rs)], q % 2 == 0, q % 3 == 0)
                yield ("esu", c, n, L, rs[(q // 2 + 1) % len(rs)], q % 2 == 1, q % 5 == 0)
                if pool:
                    yield ("esu", c, n, L, pool[q % len(pool)], q % 4 < 2, False)
                if q % 4 == 0:
                    yield ("dumb", c, n, L, (pool or rs)[(q // 4) % len(pool or rs)], True, q % 8 == 0)
    elif kind == "full":
        # fully interconnected: node-layers are numbered node by node
        cells = [(a, l) for a in range(3) for l in range(2)]
        for m, step, nn in ((3, 7, 3), (4, 11, 2), (5, 31, 3), (7, 47, 2), (8, 41, 2)):
            for q, c in enumerate(itertools.combinations(list(itertools.combinations(cells, 2)), m)):
                if not few or q % step == m % 3:
                    yield ("esu", (cells, c, True), 3, 2, (nn, 2, None, None, None), q // step % 4 == 3, False)
    elif kind == "checks":
        for q, c in enumerate(some(3, 3, 7, 60 if few else 600, 5)):
            pool = [(2, 3, None, None, None), (3, 3, None, None, None)] + SIZED3 + \
                [(3, 3, (2, 2, 1), (1, 1, 1, 1), "strict"), (3, 3, (1, 2, 2), (1, 0, 1, 0), "strict"), (3, 3, (2, 2, 2), (1, 2, 1, 1), "less_or_equal")]
            for z in range(3):
                r = pool[(q * 3 + z) % len(pool)]
                for ns in itertools.combinations(range(3), r[0]):
                    yield ("check", c, 3, 3, r, ns, (0, 1, 2))
    elif kind == "lengths":
        for sizes in ((1,), (3,), (1, 2), (2, 3), (4, 1), (1, 2, 3), (3, 3, 3), (2, 2, 3, 1)):
            k = 2 ** len(sizes) - len(sizes) - 1
            for base in range(3):
                yield ("lengths", sizes, tuple((base + x * (base + 1)) % 4 for x in range(k)))
    else:
        for n, L, m in ((2, 2, 30 if few else 113), (3, 1, 8), (1, 3, 6), (3, 2, 16 if few else 150)):
            cs = [c for c in contents(n, L) if c[1]] if n * L < 5 else some(n, L, 5, m, 77)
            for q in range(0, len(cs), max(1, len(cs) // m)):
                yield ("chance", cs[q], n, L, (min(n, 2), min(L, 2), None, None, None) if q % 3 or n < 3 else (n, L, None, None, None), q % 2 == 0)


def chance(fl, case):
    """every subgraph is found with the product of the probabilities, and at most once"""
    _, content, n, L, req, copy = case
    depth = req[0] + req[1] - 1
    total, every = {}, 0
    want = expected(content, n, L, req)
    k = 0

    def sc(f):
        net, ns, ls = build(f, content, n, L)
        found = []
        fn = SAMPLERS["esu"]
        ps = [Sym("p%d" % d, "unit") for d in range(depth)]
        args = dict(arguments(req), p=ps, copy_network=copy, seed=1)
        f.call_value(Fn(f.pkg.functions[fn], fn.rpartition(".")[0]), [net, found], args, None)
        return {"got": read(f, found, ns, ls)}
    for facts, r in fl.explore(sc):
        k += 1
        if isinstance(r, tuple):
            return None, r[1], k
        w = 1
        for key, v in facts.items():
            if key[0] != "less":
                return None, "a decision on an unknown value: %r" % (key,), k
            a, b = key[1], key[2]
            if not (a.startswith("p") ^ b.startswith("p")):
                return None, "a decision on an unknown value: %r" % (key,), k
            p = Alg.symbol(int((a if a.startswith("p") else b)[1:]))
            draw_below = v if b.startswith("p") else not v
            w = w * p if draw_below else w * (1 - p)
        for x in set(r["got"]):
            if r["got"].count(x) > 1 or x not in want:
                return "%s is returned %d times" % (show(x), r["got"].count(x)) if x in want else "%s is returned and is not acceptable" % show(x), None, k
            total[x] = total.get(x, 0) + w
    full = 1
    for d in range(depth):
        full = full * Alg.symbol(d)
    for x in sorted(want):
        if not Alg.same(total.get(x, 0), full):
            return "%s is found with probability %r instead of %r" % (show(x), total.get(x, 0), full), None, k
    return None, None, k


def run(job):
    kind, tier, part, of = job
    fl = Flow(_PKG[0])
    fl.maxsteps = 10 ** 7
    fl.pop_first = True
    hooks(fl)
    bad, abst, paths = [], [], 0
    for no, case in enumerate(cases(kind, tier)):
        if no % of != part or len(bad) > 2:
            continue
        if case[0] == "chance":
            b, un, k = chance(fl, case)
            paths += k
            if un:
                abst.append(un)
            if b:
                bad.append((b + " by the sampler (copy_network=%s)" % case[5], [text(case[1], case[4])]))
            continue

        def sc(f):
            try:
                if case[0] == "check":
                    return {"b": checked(f, *case[1:])}
                if case[0] == "lengths":
                    return {"b": lengths(f, *case[1:])}
                which, content, n, L, req, copy, collect = case
                return {"b": search(f, which, content, n, L, req, {} if which == "dumb" else {"copy_network": copy}, collect)}
            except PyRaise as e:
                return {"b": "an exception is raised: %s (%s) at %s" % (e.name, e.msg, e.where)}
        for facts, r in fl.explore(sc):
            if isinstance(r, tuple):
                abst.append(r[1])
                continue
            if [k for k in facts if k[0] != "less"]:
                abst.append("a decision on an unknown value: %r" % (sorted(facts)[0],))
                continue
            paths += 1
            if r["b"]:
                t = [text(case[1], case[4])] if case[0] != "lengths" else []
                bad.append((r["b"] + (" by %s%s" % (case[0], "" if case[5] else " without copying") if case[0] in SAMPLERS else ""), t))
                break
    return dict(job=("P14", kind), paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    jobs = [("large", tier, p, 32) for p in range(32)] + [("chance", tier, p, 16) for p in range(16)] + [(k, tier, p, 16) for k in ("small", "full") for p in range(16)] + \
        [("checks", tier, p, 8) for p in range(8)] + [("lengths", tier, 0, 1)]
    rs = pmap(run, jobs)
    n = 0
    for r in rs:
        r["bad"] = r["bad"] if n < 3 else []
        n += len(r["bad"])
    report(res, rs, "subgraph sampling", lambda j: "pymnet/sampling")
    res.rule = "the samplers return every acceptable induced subgraph exactly once, each with the product of the given probabilities"
    res.explanation = ("Abstract interpretation of the samplers on representative contents of a multilayer network; every random draw is a branch, and the "
                       "probability of every subgraph is summed over the branches as a polynomial in the given probabilities. "
                       "Connectivity in NetworkX is replaced by its specification.")
    return res
