"""P07: degrees, strengths and neighbor iterations agree with the links, in every
direction and under every restriction.  P09: for every kind of coupling, looking a
coupling link up, iterating it and counting it agree."""
import ast, itertools
from .world import *
from .links import meth, node, read, full_link, report, layers_there

LEVEL = "other"


def unfold(fl, it):
    """elements with every generic element kept"""
    return [unwrap(e) for e in fl.iterate(it)]


def terms(v):
    """a sum as a sorted list of terms; None when it is something else"""
    if isinstance(v, (int, float)) and v == 0:
        return []
    if isinstance(v, Expr) and v.op == "+":
        r = []
        for a in v.args:
            t = terms(a)
            if t is None:
                return None
            r += t
        return sorted(r, key=repr)
    if isinstance(v, Expr) and v.op == "*" and len(v.args) == 2:
        n = [a for a in v.args if isinstance(a, int)]
        s = [a for a in v.args if isinstance(a, Sym)]
        if len(n) == 1 and len(s) == 1 and n[0] >= 0:
            return [s[0]] * n[0]
        return None
    if isinstance(v, Sym):
        return [v]
    return None


def restrictions(fl, x, focus, mx):
    """queries: (how to get the node handle and call a method, the restriction it means)"""
    d = len(x)
    yield "", lambda w: node(fl, w, x), (), (None,) * d
    if d == 1:
        return
    # net[i,:,s,:]
    yield "[i,:,s,:]", lambda w: fl.item(w.net, full_link(x, (COL,) * d), None), (), (None,) * d
    # arguments and slices that keep the node's own layer
    dims = (None,) + x[1:]
    yield "(:,s)", lambda w: node(fl, w, x), dims, dims
    yield "[i,:,s,s]", lambda w: fl.item(w.net, full_link(x, (COL,) + x[1:]), None), (), dims
    dims = (x[0],) + (None,) * (d - 1)
    yield "(i,:)", lambda w: node(fl, w, x), dims, dims
    yield "[i,i,s,:]", lambda w: fl.item(w.net, full_link(x, (x[0],) + (COL,) * (d - 1)), None), (), dims
    if not mx:
        y = focus[-1]
        dims = (None,) + y[1:]
        yield "[i,:,s,r]", lambda w: fl.item(w.net, full_link(x, (COL,) + y[1:]), None), (), dims
        dims = (y[0],) + (None,) * (d - 1)
        yield "[i,j,s,:]", lambda w: fl.item(w.net, full_link(x, y[:1] + (COL,) * (d - 1)), None), (), dims
    if d == 3:
        dims = (None, x[1], None)
        yield "(:,s,:)", lambda w: node(fl, w, x), dims, dims
        yield "[i,:,s,s,t,:]", lambda w: fl.item(w.net, full_link(x, (COL, x[1], COL)), None), (), dims


COL = slice(None, None, None)
METHODS = {"deg": ("deg", "any"), "deg_in": ("deg", "in"), "deg_out": ("deg", "out"), "deg_total": ("deg", "tot"),
           "str": ("str", "any"), "str_in": ("str", "in"), "str_out": ("str", "out"), "str_total": ("str", "tot"),
           "__iter__": ("iter", "tot"), "iter_in": ("iter", "in"), "iter_out": ("iter", "out"), "iter_total": ("iter", "tot"),
           "__len__": ("deg", "any")}


def expected(kind, dirn, directed, out, inn, dims):
    """out, inn: {neighbor: weight}"""
    ok = lambda y: all(a is None or a == b for a, b in zip(dims, y))
    out = {y: v for y, v in out.items() if ok(y)}
    inn = {y: v for y, v in inn.items() if ok(y)}
    if not directed:
        sel = [out]
    elif dirn == "in":
        sel = [inn]
    elif dirn == "out":
        sel = [out]
    else:
        sel = [out, inn]
    if kind in ("deg", "iter"):
        u = set()
        for s in sel:
            u |= set(s)
        return len(u) if kind == "deg" else sorted(u, key=repr)
    return sorted([v for s in sel for v in s.values()], key=repr)


def query(fl, w, directed, x, focus, out, inn, mx, want_methods, skip=()):
    """first disagreement or None"""
    for rname, h, args, dims in restrictions(fl, x, focus, mx):
        for m in want_methods:
            if (m.startswith("iter") or m in ("__iter__", "__len__")) and args:
                continue
            kind, dirn = METHODS[m]
            if (kind, dirn if directed else "out") in skip or (directed and kind == "str" and dirn in ("any", "tot") and "strtot" in skip):
                continue
            r = meth(fl, h(w), m, *args)
            e = expected(kind, dirn, directed, out, inn, dims)
            if kind == "iter":
                got = []
                for v in unfold(fl, r):
                    v = v if isinstance(v, tuple) else (v,)
                    got.append(v)
                got = sorted(got, key=repr)
                if got != e:
                    return "%s%s iterates over %s instead of %s" % (m, rname, got, e)
            elif kind == "deg":
                if r is UNK or isinstance(r, (Lin, Expr)):
                    raise Unsupported("degree %r" % (r,))
                if r != e:
                    return "%s%s is %r instead of %r" % (m, rname, r, e)
            else:
                t = terms(r)
                if t is None:
                    raise Unsupported("strength %r" % (r,))
                t = sorted([w.recanon(z) for z in t], key=repr)
                if t != e:
                    return "%s%s sums %s instead of %s" % (m, rname, t, e)
    return None


def scenario_ml(aspects, directed, full, pts, methods):
    def sc(fl):
        w = MLWorld(fl, aspects, directed, full)
        w.others = False
        i, j = names(fl, "i", "j")
        L = names(fl, "s", "u")
        T = names(fl, "t", "v")
        if aspects == 0:
            nl = [(i,), (j,), tuple(names(fl, "k"))]
        elif aspects == 1:
            nl = [(i, L[0]), (j, L[0]), (i, L[1]), (j, L[1])]
        else:
            nl = [(i, L[0], T[0]), (j, L[0], T[0]), (i, L[1], T[0]), (j, L[0], T[1])]
        nl = [nl[p] for p in pts]
        w.focus = nl
        x = nl[0]
        r = {}
        try:
            out, inn = {}, {}
            for y in nl:
                v = read(fl, w, x, y)
                if v != NE:
                    out[y] = v
                v = read(fl, w, y, x)
                if v != NE:
                    inn[y] = v
                # the lookup itself against the tables
                for a, b in ((x, y), (y, x)):
                    have = w.row(a) and w.row(b) and w.link(a, b)
                    v = read(fl, w, a, b)
                    if (v == w.weight(a, b)) != bool(have) or (not have and v != NE):
                        r["bad"] = "looking up a link gives %r although it %s" % (v, "exists" if have else "does not exist")
                        return r
            r["bad"] = query(fl, w, directed, x, nl, out, inn, False, methods)
        except PyRaise as e:
            r["raise"] = "%s (%s) at %s" % (e.name, e.msg, e.where)
        w.consistent()
        return r
    return sc


def scenario_mx(kind, aspects, aspect, directed, full, cdirected, methods, third=True):
    """coupled aspect: 'aspect' with the given kind; other aspects uncoupled"""
    def sc(fl):
        i, j = names(fl, "i", "j")
        weight = Sym("c", "weight")
        cw = None
        if kind in ("categorical", "ordinal"):
            c = (kind, weight)
        elif kind == "none":
            c = ("none",)
        else:
            cw = MLWorld(fl, 0, cdirected, True, tag="C:")
            cw.others = False
            c = (cw.net,)
        cs = [("none",)] * aspects
        cs[aspect - 1] = c
        w = MXWorld(fl, cs, directed, full)
        w.others = False
        if kind == "ordinal":
            l0 = Sym("l", "int")
            ls = [l0, Sym("l+1", "int"), Sym("l+2", "int")]
            for z in ls:
                fl.names[z.name] = z
            ls = [ls[1], ls[0], ls[2]] if third else ls
        else:
            ls = names(fl, "s", "u", "r")
            if not third:
                ls = ls[:2]
        other = names(fl, "t", "v")

        def nl(n, l, o=0):
            return (n, l) if aspects == 1 else (n, l, other[o]) if aspect == 1 else (n, other[o], l)
        foc = [nl(i, l) for l in ls] + [nl(j, ls[0])]
        if aspects == 2:
            foc.append(nl(i, ls[1], 1))
        w.focus = foc
        x = foc[0]
        if cw:
            cw.focus = [(l,) for l in ls]
            # the coupling network is between layers of the network
            cw.reg = lambda z: (cw.register(z), w.assume(True, "in", aspect, key(z[0])))
        r = {}
        if not all(w.is_in(a, e) for a, e in enumerate(x)):
            raise Dead()
        # self-links are not part of a multiplex network (its own setter rejects them)
        lw = w.layer_world(w.lay(x))
        lw.assume(False, *lw.lk(x[:1], x[:1]))
        if cw:
            for l in ls:
                cw.assume(False, *cw.lk((l,), (l,)))
        try:
            out, inn = {}, {}
            for y in foc[1:]:
                if any(not w.is_in(a, e) for a, e in enumerate(y) if a):
                    continue                      # not a layer of the network
                inter = y[0] == x[0]
                if inter:
                    exists = w.is_in(0, x[0]) and (full or (w.member(x[0], w.lay(x)) and w.member(y[0], w.lay(y))))
                    same_other = aspects == 1 or y[3 - aspect] == x[3 - aspect]
                    for a, b, store in ((x, y, out), (y, x, inn)):
                        want = None
                        if exists and same_other:
                            if kind == "categorical":
                                want = weight
                            elif kind == "ordinal" and fl.eq(fl.binop(ast.Add(), a[aspect], 1, None), b[aspect]) or \
                                    kind == "ordinal" and fl.eq(fl.binop(ast.Add(), b[aspect], 1, None), a[aspect]):
                                want = weight
                            elif kind == "network":
                                p, q = (a[aspect],), (b[aspect],)
                                if cw.row(p) and cw.row(q) and cw.link(p, q):
                                    want = cw.weight(p, q)
                        v = read(fl, w, a, b)
                        if cw:
                            v = cw.recanon(v)
                        if v != (NE if want is None else want):
                            r["bad"] = "looking up the coupling of two layers gives %r instead of %r" % (v, NE if want is None else want)
                            return r
                        if want is not None:
                            store[y] = want
                else:
                    for a, b, store in ((x, y, out), (y, x, inn)):
                        v = read(fl, w, a, b)
                        if v != NE:
                            store[y] = v
            if directed or not cdirected:
                skip = ("strtot",) if kind != "none" else ()
                r["bad"] = query(fl, w, directed, x, foc, out, inn, True, methods, skip)
        except PyRaise as e:
            r["raise"] = "%s (%s) at %s" % (e.name, e.msg, e.where)
        w.consistent()
        if cw:
            cw.consistent()
        return r
    return sc


def run(job):
    prop = job[0]
    fl = Flow(_PKG[0])
    if prop == "P07":
        sc = scenario_ml(*job[1:])
    else:
        sc = scenario_mx(*job[1:])
    paths, bad, abst = 0, [], []
    for facts, r in fl.explore(sc):
        if isinstance(r, tuple):
            abst.append(r[1])
            continue
        paths += 1
        b = "an exception is raised: " + r["raise"] if "raise" in r else r.get("bad")
        if b:
            bad.append((b, sorted("%s=%s" % (" ".join(map(str, k)).strip(), v) for k, v in facts.items())))
    return dict(job=job, paths=paths, bad=bad[:3], abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]
GROUPS = (("deg", "deg_in", "deg_out", "deg_total", "__len__"), ("str", "str_in", "str_out", "str_total"),
          ("__iter__", "iter_in", "iter_out", "iter_total"))


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    jobs = []
    if prop == "P07":
        for aspects in (0, 1, 2):
            for directed in (False, True):
                for full in ((True, False) if aspects else (True,)):
                    n = 3 if aspects == 0 else 4
                    sets = [tuple(range(n))] if not directed or tier == "thorough" or aspects == 0 else \
                        [p for p in itertools.combinations(range(n), 3) if p[0] == 0]
                    for pts in sets:
                        for g in GROUPS:
                            jobs.append(("P07", aspects, directed, full, pts, g))
    else:
        for kind in ("categorical", "ordinal", "none", "network"):
            for aspects, aspect in ((1, 1), (2, 1), (2, 2)):
                for directed in (False, True):
                    for full in (True, False):
                        for cdir in ((False, True) if kind == "network" else (False,)):
                            for g in GROUPS:
                                jobs.append(("P09", kind, aspects, aspect, directed, full, cdir, g, (aspects == 1 and kind != "network") or tier == "thorough" or kind == "ordinal"))
    rs = pmap(run, jobs)
    report(res, rs, "queries" if prop == "P07" else "couplings")
    if prop == "P07":
        res.rule = "every degree, strength and iterator equals what the link table content implies for its direction and restriction"
    else:
        res.rule = "for every coupling kind, lookup, iteration, degree and strength describe the same set of coupling links"
    res.explanation = ("Abstract interpretation of the query methods over facts about the link tables, the registrations and the couplings, "
                       "every combination followed, for a node-layer and representatives of each way another node-layer can relate to it.")
    return res
