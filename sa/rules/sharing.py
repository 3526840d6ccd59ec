"""P03: what a function returns does not share changeable storage with the
networks it was given."""
from .effects import IN_PLACE, MUTATORS, short, NETLISTS
from .mutation import run
from ..interp import fs

LEVEL = "other"
MUTABLE = {"dict", "list", "set", "kwdict"}
# documented live views on the network they are built from (class -> reason)
VIEWS = {
    "pymnet.net.MultilayerNode": "node handle", "pymnet.net.MultilayerEdges": "edge view",
    "pymnet.net.MultiplexIntraNetDict": "the intra-layer networks of a multiplex network",
    "pymnet.net.FlatMultilayerNetworkView": "view", "pymnet.net.ModularityMultilayerNetworkView": "view",
    "pymnet.nxwrap.MonoplexGraphNetworkxView": "NetworkX view", "pymnet.nxwrap.MonoplexGraphNetworkxNew": "NetworkX view",
    "pymnet.nxwrap.MonoplexGraphWrapper_singleedge": "part of the NetworkX view",
    "pymnet.nxwrap.MonoplexGraphWrapper_adjlist": "part of the NetworkX view",
    "pymnet.nxwrap.MonoplexGraphWrapper_adj": "part of the NetworkX view",
    "pymnet.nxwrap.MonoplexGraphWrapper_node": "part of the NetworkX view",
}
# entry points whose purpose is to hand out a live view or the argument itself
VIEW_FUNCTIONS = {
    "pymnet.nxwrap.autowrap": "live NetworkX view",
    "pymnet.nxwrap.networkxdecorator": "wraps functions",
}


def post(I, entry, r):
    """protected mutable objects that are part of the returned value"""
    def origin_class(o):
        c = I.cls_of.get(o)
        return c[1] if c else None
    nets = set(getattr(I, "net_labels", ())) | {"self"}
    out = []
    views = set()
    couplings = set()
    for (o, f), v in list(I.heap.items()):
        if f == "couplings" and I.kind.get(o) == "inst":
            # coupling networks are referenced by design: a coupling is configuration given by the user
            for x in I.reachable(frozenset(v)):
                if I.kind.get(x) == "inst":
                    couplings |= I.reachable(fs(('o', x)))
    kinds = {}
    roots = []
    for a in r:
        if a[0] != 'o':
            continue
        o = a[1]
        if origin_class(o) in VIEWS:
            continue
        roots.append(o)
    returns_net = any(origin_class(o) in ("pymnet.net.MultilayerNetwork", "pymnet.net.MultiplexNetwork") and o not in I.origin for o in roots)
    for o in roots:
        if o in I.origin:
            if I.kind.get(o) in MUTABLE and I.origin[o] in nets:
                out.append(("result", I.origin[o], I.kind[o], str(o)))
            if not (I.origin[o] in nets and I.kind.get(o) == "inst" and (entry[1], I.origin[o]) in IN_PLACE):
                continue
            # an output argument: it may be returned, but must not hold storage of another argument
            for x in I.reachable(fs(('o', o))):
                if x in I.origin and I.origin[x] in nets and I.origin[x] != I.origin[o] and I.kind.get(x) in MUTABLE and x not in couplings:
                    out.append(("inside", I.origin[x], origin_class(x) or I.kind[x], str(x)))
            continue
        stop = {x for x in list(I.cls_of) if origin_class(x) in VIEWS and x not in I.origin and
                origin_class(x) != "pymnet.net.MultiplexIntraNetDict"}
        for x in I.reachable(fs(('o', o)), stop=stop):
            if x in I.origin and I.origin[x] in nets and I.kind.get(x) in MUTABLE | {"inst"} and x not in couplings:
                out.append(("inside", I.origin[x], origin_class(x) or I.kind[x], str(x)))
    kinds["roots"] = len(roots)
    return dict(shared=out, roots=len(roots), returns_net=returns_net,
                holders=holders(I, roots, out, nets))


def holders(I, roots, out, nets):
    """the fields of new objects that point at shared objects, for the report"""
    bad = {x[3] for x in out}
    res = []
    for (o, f), v in I.heap.items():
        if o in I.origin:
            continue
        for a in v:
            if isinstance(a, tuple) and a and a[0] == 'o' and str(a[1]) in bad and len(res) < 6:
                res.append("%s.%s" % (I.cls_of[o][1] if o in I.cls_of else str(o).split('#')[0], f))
    return res


def check(prop, pkg, tier):
    from ..check import Result
    res = Result()
    n = nets = 0
    rs = run(pkg, tier, post=post, keep=lambda e: not (e[0] == "method" and e[1].rpartition(".")[2].startswith("_")
                                                       and not e[1].endswith("__")))
    for r in rs:
        e = r["entry"]
        if not r["complete"] or e[1] in VIEW_FUNCTIONS:
            continue
        if e[0] == "method" and (e[1].rpartition(".")[2] in MUTATORS or e[1].rpartition(".")[0] in VIEWS):
            continue
        n += 1
        nets += r["post"]["returns_net"]
        for how, origin, what, oid in r["post"]["shared"]:
            if (e[1], origin) in IN_PLACE:
                continue
            res.add("%s|%s|%s" % (e[1], origin, what),
                    "%s (called with a %s network) returns %s that %s a %s owned by %s; held in %s" % (
                        e[1], short(e[3]), "a value", "is" if how == "result" else "contains", what,
                        "the network it was called on" if origin == "self" else "its argument '%s'" % origin, r["post"]["holders"][:3]),
                    oid.split('#')[0], e[1])
    res.rule = "no changeable object owned by an argument network is reachable from a returned value that is not a documented view"
    res.explanation = ("Points-to analysis of every public function and method; the objects reachable from the returned value are "
                       "intersected with the dictionaries, sets, lists and networks that the argument networks own.")
    res.counts = {"entry_points": n, "entry_points_returning_networks": nets}
    res.floor("entry_points", 250)
    res.floor("entry_points_returning_networks", 15)
    return res
