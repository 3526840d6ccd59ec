"""P04: networks derived from a network keep its directedness, full
interconnection, missing-link value and couplings.
P23: generators and readers build the network with the requested options."""
from .effects import entries, base, setup, short
from ..domain import ML, MX, net_params, NETS_PARENT
from ..interp import XS, fs, const, BOTTOM, Budget
from ..model import params_of
from ..par import pmap

LEVEL = "other"
NE = ('x', 'the noEdge value of the source')
CW = ('x', 'the coupling weight of the source')
RW = ('x', 'the requested coupling weight')
CONFIGS = [(True, False), (False, True), (True, True), (False, False)]   # (directed, fullyInterconnected)
FLAGS = ("directed", "fullyInterconnected", "noEdge")

T = "pymnet.transforms."
# function -> what its result keeps.  "full": every result keeps full interconnection; "layers": results that
# still have aspects keep it; "class": a multiplex network gives a multiplex network with its couplings
DERIVED = {
    T + "subnet": {"directed", "noEdge", "full", "class"},
    T + "relabel": {"directed", "noEdge", "full", "class"},
    T + "normalize": {"directed", "noEdge", "full", "class"},
    T + "randomize_nodes_by_layer": {"directed", "noEdge", "full", "class"},
    T + "subnet_iter": {"directed", "noEdge", "full", "class"},
    # thresholding turns a coupled multiplex network into a general multilayer network: by design
    T + "threshold": {"directed", "noEdge", "layers", "couplings"},
    T + "aggregate": {"directed", "noEdge", "layers"},
    T + "overlay_network": {"directed", "noEdge"},
    T + "get_underlying_graph": {"directed", "noEdge"},
    "pymnet.graphlets.graphlets.merge_nodes": {"directed", "noEdge", "full", "class"},
    "pymnet.graphlets.graphlets.add_possible_edges": {"directed", "noEdge", "full", "class"},
}
# functions for which another coupling weight may appear besides the requested one
OTHER_WEIGHTS = {"pymnet.models.conf": "degrees given as a monoplex network recurse without couplings, and give a monoplex network"}
OPTIONS = ("couplings", "directed", "fullyInterconnected")


def networks_in(I, r, nd, fr):
    env = {'$mut': BOTTOM}
    for _ in range(2):
        for a in list(r):
            if a[0] == 'o' and I.kind[a[1]] in ('iter', 'gen', 'tuple', 'dict', 'list'):
                if I.kind[a[1]] == 'dict':
                    r = r | I.get(a[1], '[]')
                else:
                    r = r | I.fixpoint(lambda: I.iterate(r, nd, env, fr))
    out = []
    for a in r:
        if a[0] == 'o' and I.kind.get(a[1]) == 'inst' and a[1] not in I.origin and \
                I.cls_of[a[1]][1] in (ML, MX, NETS_PARENT):
            out.append(describe(I, a[1]))
    return out


def describe(I, o):
    d = {f: set(I.get(o, f)) for f in FLAGS}
    w = set()
    for c in I.get(o, "couplings"):
        if c[0] == 'o':
            for t in I.content(c[1]):
                if t[0] == 'o' and I.kind.get(t[1]) == 'tuple':
                    n = I.tuple_len(t[1])
                    if n is None:
                        w |= I.content(t[1])
                    elif n > 1:
                        w |= I.get(t[1], 1)
    d["weights"] = w
    d["cls"] = I.cls_of[o][1]
    d["site"] = str(o).split('#')[0]
    return d


def coupling_list(tag):
    def make(I, nd, fr, env=None):
        return I.obj('list', nd, fr, I.mktuple([fs(const("categorical")), fs(tag)], nd, fr), 'pinned couplings')
    return make


def coupling_tuple(tag):
    def make(I, nd, fr, env=None):
        return I.mktuple([fs(const("categorical")), fs(tag)], nd, fr)
    return make


def run_config(job):
    prop, entry, cfg, k, budget = job
    I = base(k)
    directed, full = cfg
    I.budget = budget
    I.config['nvararg'] = 1
    I.config['no_output_net'] = True
    if prop == "P04":
        pins = dict(directed=directed, full=full, noedge=fs(NE))
        if entry[3] == MX:
            pins['couplings'] = coupling_list(CW)
        else:
            pins['aspects'] = 1
        I.config['net_pins'] = pins
    else:
        I.config['params'] = {"couplings": coupling_tuple(RW), "directed": lambda I, nd, fr: fs(const(directed)),
                              "fullyInterconnected": lambda I, nd, fr: fs(const(full))}
    try:
        thunk, nets, fr, nd = setup(I, entry)
        intra = []
        if prop == "P04" and entry[3] == MX:
            for n in nets[:1]:
                intra = intra_networks(I)
        I.phase = 'E'
        r = I.fixpoint(thunk)
        out = networks_in(I, r, nd, fr)
    except Budget:
        return dict(entry=entry, cfg=cfg, over=True, nets=[], intra=[])
    return dict(entry=entry, cfg=cfg, over=False, nets=out, intra=intra, reached=len(I.reached_functions))


def intra_networks(I):
    return [describe(I, o) for o, c in list(I.cls_of.items()) if c[1] == NETS_PARENT and I.kind.get(o) == 'inst']


def names(s):
    r = []
    for a in s:
        r.append(repr(a[2]) if a[0] == 'c' else (a[1] or "an unrelated value") if a[0] == 'x' else str(a[1]))
    return ", ".join(sorted(r)) or "nothing"


def check(prop, pkg, tier):
    from ..check import Result
    res = Result()
    k = 2 if tier == "quick" else 3
    budget = 12000 if tier == "quick" else 60000
    I = base(k)
    es = [e for e in entries(I.pkg) if e[0] == "function"]
    if prop == "P04":
        es = [e for e in es if e[1] in DERIVED]
        missing = set(DERIVED) - {e[1] for e in es}
        res.notes += ["not found: " + m for m in sorted(missing)]
        if len(missing) > 3:
            res.floor("derived_functions", len(DERIVED))
        cfgs = CONFIGS
    else:
        es = [e for e in es if set(params_of(I.pkg.functions[e[1]])) & set(OPTIONS) and e[1].split('.')[1] in ("models", "netio")
              and "networkx" not in e[1]]
        cfgs = CONFIGS[:2]
    jobs = [(prop, e, c, k, budget) for e in es for c in cfgs]
    rs = pmap(run_config, jobs)
    obligations = 0
    found = set()
    nets = 0

    def bad(e, cfg, what, d, have, want):
        res.add("%s|%s" % (e[1], what),
                "%s returns a network (created at %s) whose %s can be %s instead of %s (source: %s, directed=%s, fullyInterconnected=%s)" % (
                    e[1], d["site"], what, names(have), want, short(e[3]), cfg[0], cfg[1]), d["site"].partition('@')[2] or d["site"], e[1])

    for r in rs:
        e, cfg = r["entry"], r["cfg"]
        if r["over"]:
            res.notes.append("over budget: %s" % e[1])
            continue
        fD, fF = ('c', 'bool', cfg[0]), ('c', 'bool', cfg[1])
        for d in r["nets"]:
            nets += 1
            found.add(e[1])
            if prop == "P04":
                keep = DERIVED[e[1]]
                obligations += len(keep)
                if d["directed"] - {fD}:
                    bad(e, cfg, "directedness", d, d["directed"] - {fD}, cfg[0])
                if d["noEdge"] - {NE}:
                    bad(e, cfg, "missing-link value", d, d["noEdge"] - {NE}, "the one of the source")
                if "full" in keep and d["fullyInterconnected"] - {fF}:
                    bad(e, cfg, "full interconnection", d, d["fullyInterconnected"] - {fF}, cfg[1])
                if "layers" in keep and (fF not in d["fullyInterconnected"]):
                    bad(e, cfg, "full interconnection", d, d["fullyInterconnected"], cfg[1])
                if "class" in keep and d["cls"] != e[3]:
                    bad(e, cfg, "class", d, {('x', short(d["cls"]))}, short(e[3]))
                if ("class" in keep or "couplings" in keep) and d["cls"] == MX and d["weights"] != {CW}:
                    bad(e, cfg, "coupling weight", d, d["weights"] - {CW}, "the one of the source")
            else:
                ps = params_of(I.pkg.functions[e[1]])
                if "directed" in ps:
                    obligations += 1
                    if d["directed"] != {fD}:
                        bad(e, cfg, "directedness", d, d["directed"], "the requested %s" % cfg[0])
                if "fullyInterconnected" in ps and d["cls"] == MX:
                    obligations += 1
                    if d["fullyInterconnected"] != {fF}:
                        bad(e, cfg, "full interconnection", d, d["fullyInterconnected"], "the requested %s" % cfg[1])
                if "couplings" in ps and d["cls"] == MX:
                    obligations += 1
                    if (RW not in set().union(*[x["weights"] for y in rs if y["entry"][1] == e[1] for x in y["nets"]])) if e[1] in OTHER_WEIGHTS else (d["weights"] != {RW}):
                        bad(e, cfg, "coupling weight", d, d["weights"] - {RW}, "the requested one")
        if prop == "P04":
            for d in r["intra"]:
                obligations += 2
                if d["directed"] - {fD}:
                    bad((e[0], "pymnet.net.MultiplexNetwork.A", e[2], e[3]), cfg, "directedness", d, d["directed"] - {fD}, cfg[0])
                if d["noEdge"] - {NE}:
                    bad((e[0], "pymnet.net.MultiplexNetwork.A", e[2], e[3]), cfg, "missing-link value", d, d["noEdge"] - {NE}, "the one of the source")
    res.counts = {"functions": len(found), "configurations": len(rs), "networks": nets, "obligations": obligations}
    if prop == "P04":
        res.rule = "every field that configures the returned network contains only the value of the source network, in every configuration"
        res.explanation = ("Value-flow analysis of every function that derives a network, with the source's directedness, full "
                           "interconnection, missing-link value and coupling weight as distinguishable abstract values; the fields "
                           "of every network object the function can return are compared with them.")
        res.floor("functions", 8)
        res.floor("obligations", 60)
    else:
        res.rule = "the configuration fields of every returned network contain only the requested values"
        res.explanation = ("Value-flow analysis of the generators and readers with the requested couplings, directedness and full "
                           "interconnection as distinguishable abstract values.")
        res.floor("functions", 6)
    return res
