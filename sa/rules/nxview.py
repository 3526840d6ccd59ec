"""P13: the NetworkX view of a monoplex network is the network's own adjacency,
for reading and for writing."""
import itertools
from .world import *
from .links import meth, report
from ..flow import Fn

LEVEL = "other"
NODES = ("i", "j", "h")
NX = "pymnet.nxwrap."


def contents(n):
    pairs = [(a, b) for a in range(n) for b in range(a, n)]
    for k in range(len(pairs) + 1):
        for c in itertools.combinations(pairs, k):
            yield c


def build(fl, links, n, noedge):
    net = fl.call_value(ClassRef(ML), [], {"aspects": 0, "noEdge": noedge}, None)
    ns = [Sym(x, "name") for x in NODES[:n]]
    ws = {}
    for x in ns:
        meth(fl, net, "add_node", x)
    for a, b in links:
        ws[a, b] = ws[b, a] = Sym("w%d%d" % (a, b), "weight")
        fl.setitem(net, (ns[a], ns[b]), ws[a, b], None)
    return net, ns, ws


def same(fl, a, b):
    if a is UNK:
        raise Unsupported("unknown value")
    return fl.eq(a, b) is True


def refused(fl, o, k):
    try:
        fl.item(o, k, None)
    except PyRaise as e:
        return e.name == "KeyError"
    return False


def listed(fl, o):
    return [unwrap(x) for x in fl.iterate(o)]


def length(fl, o):
    return fl.length(o)


def answers(fl, adj, node, ns, ws, outside, when):
    """what a reader of the view sees"""
    for what, o in (("adjacency", adj), ("nodes", node)):
        got = listed(fl, o)
        if len(got) != len(ns) or any(x not in got for x in ns):
            return "%s: the %s view lists %r instead of %r" % (when, what, got, ns)
        if fl.length(o) != len(ns):
            return "%s: the length of the %s view is not the number of nodes" % (when, what)
        if not refused(fl, o, outside):
            return "%s: the %s view has an entry for a node that is not there" % (when, what)
        for x in ns:
            if refused(fl, o, x):
                return "%s: the %s view has no entry for node %r" % (when, what, x)
    for a, x in enumerate(ns):
        row = fl.item(adj, x, None)
        want = [ns[b] for b in range(len(ns)) if (a, b) in ws]
        got = listed(fl, row)
        if len(got) != len(want) or any(y not in got for y in want):
            return "%s: the neighbors of %r in the view are %r instead of %r" % (when, x, got, want)
        if fl.length(row) != len(want):
            return "%s: the view counts %r neighbors of %r instead of %d" % (when, fl.length(row), x, len(want))
        if not refused(fl, row, outside):
            return "%s: the view has a link of %r to a node that is not there" % (when, x)
        for b, y in enumerate(ns):
            if (a, b) not in ws:
                if not refused(fl, row, y):
                    return "%s: the view has a link %r-%r that is not there" % (when, x, y)
                continue
            edge = fl.item(row, y, None)
            if not same(fl, fl.item(edge, "weight", None), ws[a, b]):
                return "%s: the weight of %r-%r in the view is %r instead of %r" % (when, x, y, fl.item(edge, "weight", None), ws[a, b])
            if listed(fl, edge) != ["weight"] or fl.length(edge) != 1 or not refused(fl, edge, "color"):
                return "%s: the attributes of a link in the view are not its weight alone" % when
            d = meth(fl, edge, "copy")
            if not isinstance(d, PDict) or not same(fl, fl.item(d, "weight", None), ws[a, b]):
                return "%s: the copied attributes of %r-%r are %r" % (when, x, y, d)
    return None


# --------------------------------------------------------------------- writes
def new(ws, a, b, w):
    r = dict(ws)
    if w is None:
        r.pop((a, b), None)
        r.pop((b, a), None)
    else:
        r[a, b] = r[b, a] = w
    return r


WRITES = ("none", "network", "attributes", "no attributes", "weight", "edge view", "through the edge", "remove link", "remove weight", "add node", "add row")


def write(fl, how, net, adj, ns, ws, a, b):
    """-> nodes and weights expected afterwards, or None where the write does not apply"""
    w = Sym("w", "weight")
    x, y = ns[a], ns[b]
    if how == "none":
        return ns, ws
    if how == "network":
        fl.setitem(net, (x, y), w, None)
        return ns, new(ws, a, b, w)
    if how in ("add node", "add row"):
        z, row = Sym("new", "name"), PDict([])
        if how == "add row":
            fl.setitem(row, y, PDict([("weight", w)]), None)
        fl.setitem(adj, z, row, None)
        return ns + [z], new(ws, b, len(ns), w) if how == "add row" else ws
    row = fl.item(adj, x, None)
    if how == "attributes":
        fl.setitem(row, y, PDict([("weight", w)]), None)
        return ns, new(ws, a, b, w)
    if how == "no attributes":
        fl.setitem(row, y, PDict([]), None)
        return ns, new(ws, a, b, 1)
    if how == "weight":
        fl.setitem(row, y, w, None)
        return ns, new(ws, a, b, w)
    if how == "edge view":
        # networkx copies a link by storing the attributes of another one
        for (c, d) in sorted(ws):
            if {c, d} != {a, b}:
                fl.setitem(row, y, fl.item(fl.item(adj, ns[c], None), ns[d], None), None)
                return ns, new(ws, a, b, ws[c, d])
        return None
    if (a, b) not in ws:
        return None
    edge = fl.item(row, y, None)
    if how == "through the edge":
        fl.setitem(edge, "weight", w, None)
        return ns, new(ws, a, b, w)
    if how == "remove link":
        fl.delitem(row, y, None)
    else:
        fl.delitem(edge, "weight", None)
    return ns, new(ws, a, b, None)


def scenario(fl, links, n, how, a, b):
    none = NE if (len(links) + a + b) % 2 else 0
    net, ns, ws = build(fl, links, n, none)
    view = fl.call_value(Fn(fl.pkg.functions[NX + "autowrap"], "pymnet.nxwrap"), [net], {}, None)
    if not isinstance(view, Inst) or "_adj" not in view.attrs or "_node" not in view.attrs:
        raise Unsupported("the tables of the view")
    adj, node = view.attrs["_adj"], view.attrs["_node"]
    after = write(fl, how, net, adj, ns, ws, a, b)
    if after is None:
        return None
    ns, ws = after
    when = "as built" if how == "none" else "after a write (%s) to %s-%s" % (how, NODES[a], NODES[b])
    bad = answers(fl, adj, node, ns, ws, Sym("other", "name"), when)
    if bad:
        return bad
    for p, x in enumerate(ns):
        for q, y in enumerate(ns):
            got, want = fl.item(net, (x, y), None), ws.get((p, q), none)
            if not same(fl, got, want):
                return "%s: the network's link %r-%r is %r instead of %r" % (when, x, y, got, want)
    return None


def run(job):
    n, part, of = job
    fl = Flow(_PKG[0])
    fl.maxsteps = 10 ** 7
    fl.hooks[("native", "super.__init__")] = lambda f, a, k: None
    fl.hooks["constant", "networkx.__version__"] = "3.0"
    bad, abst, paths = [], [], 0
    for no, links in enumerate(contents(n)):
        if no % of != part or len(bad) > 2:
            continue
        for how in WRITES:
            for a, b in [(0, 0)] if how in ("none", "add node") else itertools.product(range(n), repeat=2):
                def sc(f):
                    try:
                        return {"b": scenario(f, links, n, how, a, b)}
                    except PyRaise as e:
                        return {"b": "write (%s) to %s-%s: an exception is raised: %s (%s) at %s" % (how, NODES[a], NODES[b], e.name, e.msg, e.where)}
                for facts, r in fl.explore(sc):
                    if isinstance(r, tuple):
                        abst.append(r[1])
                        continue
                    if facts:
                        abst.append("a decision on an unknown value: %r" % (sorted(facts)[0],))
                        continue
                    paths += 1
                    if r["b"] and len(bad) < 3:
                        bad.append((r["b"], ["links " + (" ".join("%s-%s" % (NODES[c], NODES[d]) for c, d in links) or "none")]))
    return dict(job=("P13", "%d nodes" % n), paths=paths, bad=bad, abst=sorted(set(abst))[:3], reached=sorted(fl.reached))


_PKG = [None]


def check(prop, pkg, tier):
    from ..check import Result
    from ..par import pmap
    res = Result()
    _PKG[0] = pkg
    rs = pmap(run, [(3, p, 16) for p in range(16)] + [(2, 0, 1), (1, 0, 1)])
    n = 0
    for r in rs:
        r["bad"] = r["bad"] if n < 3 else []
        n += len(r["bad"])
    report(res, rs, "NetworkX view", lambda j: "pymnet/nxwrap.py")
    res.rule = "the NetworkX view of a monoplex network lists, counts, finds and changes exactly the network's nodes, links and weights"
    res.explanation = ("Abstract interpretation of the adjacency and node mappings of the view on every pattern of links, self-links included, of up to three nodes, "
                       "weights being symbols: reads as built and after every kind of write, through the view or the network.")
    return res
