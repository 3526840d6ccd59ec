"""Whole-program effect analysis: which caller-visible objects may each entry
point of the library modify, hand out, or resize while iterating.

Entry points are enumerated from the source on every run: every public
function, every public method of every class.  Each is analysed once per
network kind with arguments that describe *every* network a history of calls
could have built (sa.domain.make_net)."""
import ast, os, time
from ..interp import Interp, X, XS, fs, const, BOTTOM, NONE
from ..domain import (ML, MX, NET_CLASSES, make_net, make_param, make_coupling, net_params, node_at,
                      public_functions, is_public)
from ..model import loc, params_of, all_params, AnalysisError
from ..par import pmap
from ..interp import Budget

# methods that exist to change their receiver
MUTATORS = {"__init__", "__setitem__", "__delitem__", "add_node", "add_layer", "build_init", "finalize",
            "register_layer", "register_node", "register_edge", "draw", "normalize_coords", "draw_elements",
            "add_link", "build", "__call__"}

# entry points documented to fill or change an argument: (function, parameter) -> reason
IN_PLACE = {
    ("pymnet.models.single_layer_er", "net"): "fills the network it is given",
    ("pymnet.models.single_layer_conf", "net"): "fills the network it is given",
    ("pymnet.transforms.subnet", "newNet"): "documented output argument",
    ("pymnet.transforms.aggregate", "newNet"): "documented output argument",
    ("pymnet.sampling.esu.sample_multilayer_subgraphs_esu", "results"): "documented output argument",
    ("pymnet.sampling.dumb.dumb_enumeration", "results"): "documented output argument",
    ("pymnet.graphlets.independent_equations.explore", "post"): "recursion accumulator",
    ("pymnet.graphlets.independent_equations.three_orbit_equations", "eq_net"): "equation network being filled",
    ("pymnet.graphlets.independent_equations.all_inds_and_deps", "eq_net"): "equation network being filled",
    ("pymnet.graphlets.graphlet_measures.orbit_counts", "orbits"): "documented: counts are stored in this dictionary",
    ("pymnet.visuals.layouts.normalize_coordinates", "coords"): "documented in-place option",
    ("pymnet.visuals.drawcore.draw", "ax"): "documented: the axes the figure is drawn on",
    ("pymnet.visuals.drawbackends.mpl.NetFigureMPL.draw", "ax"): "documented: the axes the figure is drawn on",
    ("pymnet.visuals.drawbackends.mpl.fix_attr", "obj"): "sets an attribute of the artist it is given",
    ("pymnet.visuals.drawbackends.mpl.fix_attr_range", "obj"): "sets an attribute of the artist it is given",
}
# options that must be at their default for the guarantee to be given
DEFAULT_ONLY = {"pymnet.sampling.esu.sample_multilayer_subgraphs_esu": ("copy_network",)}
# attribute writes that only swap the class of a matplotlib artist
IGNORED_WRITES = {("setattr", "__class__")}
NETLISTS = {"nets", "nws", "networks"}

API = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "api.txt")


def short(cls):
    return {ML: "multilayer", MX: "multiplex"}.get(cls, cls.rpartition(".")[2])


def entries(pkg):
    out = []
    for q, mod, n in public_functions(pkg):
        takes = bool(net_params(n)) or any(p in NETLISTS for p in params_of(n))
        for c in (NET_CLASSES if takes else NET_CLASSES[:1]):
            out.append(("function", q, mod, c))
    for cq, cn in sorted(pkg.classes.items()):
        mod = cq.rpartition(".")[0]
        if mod not in pkg.modules:
            continue
        for m in cn.body:
            if isinstance(m, ast.FunctionDef):
                q = cq + "." + m.name
                if cq in NET_CLASSES:
                    out.append(("method", q, mod, cq))
                    if cq == ML and MX + "." + m.name not in pkg.functions:
                        out.append(("method", q, mod, MX))
                else:
                    init = pkg.functions.get(cq + ".__init__")
                    cs = NET_CLASSES if (init is not None and net_params(init)) else NET_CLASSES[:1]
                    for c in cs:
                        out.append(("method", q, mod, c))
    # functions that are not part of the library's interface (helpers split out of
    # an existing function) are analysed where they are called
    api = set(open(API).read().split())
    return [e for e in out if e[1] in api]


def default_of(fn, name):
    a = fn.args
    ps = a.args
    off = len(ps) - len(a.defaults)
    for i, p in enumerate(ps):
        if p.arg == name and i >= off and isinstance(a.defaults[i - off], ast.Constant):
            return fs(const(a.defaults[i - off].value))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name and isinstance(d, ast.Constant):
            return fs(const(d.value))
    return None


def make_arg(I, fn, q, p, cls, nd, fr, nets, protect=True):
    """an arbitrary caller-supplied value for parameter p"""
    ov = I.config.get('params', {}).get(p)
    if ov is not None and p not in nets:
        return ov(I, nd, fr)
    if p in nets:
        d = default_of(fn, p)
        if d and NONE in d and I.config.get('no_output_net'):
            return d
        return fs(make_net(I, cls, p, **I.config.get('net_pins', {}))) | (d or BOTTOM)
    if p in DEFAULT_ONLY.get(q, ()):
        d = default_of(fn, p)
        if d is not None:
            return d
    old, I.phase = I.phase, 'P:' + p
    try:
        if p in NETLISTS:
            net = fs(make_net(I, cls, p, **I.config.get('net_pins', {})))
            lst = I.obj('list', nd, fr, net, p + ':list')
            d = I.obj('dict', nd, fr, None, p + ':dict')
            for a in d:
                I.put(a[1], '{}', XS); I.put(a[1], '[]', lst)
            for o in I.reachable(d):
                I.origin.setdefault(o, p)
            return d
        if p in ("couplings", "coupling"):
            cn = make_coupling(I, p, nd, fr, {'$mut': BOTTOM}, XS)
            lst = I.obj('list', nd, fr, I.mktuple([XS, XS], nd, fr) | cn | I.mktuple([cn], nd, fr) | XS, p + ':list')
            for o in I.reachable(lst | cn):
                I.origin.setdefault(o, p)
            return lst | XS | I.mktuple([XS, XS], nd, fr)
        return make_param(I, p) | XS
    finally:
        I.phase = old


BASE = {}


def base(k):
    if k not in BASE:
        BASE[k] = Interp(k=k)
    return BASE[k]


def setup(I, entry):
    """-> (callable thunk producing the result, names of network parameters)"""
    kind, q, mod, cls = entry
    fn = I.pkg.functions[q]
    fr = I.toplevel_frame(mod, 'e'); nd = node_at(I, mod)
    env = {'$mut': BOTTOM}
    nets = net_params(fn)
    if kind == "function":
        a = fn.args
        args = [make_arg(I, fn, q, p, cls, nd, fr, nets) for p in params_of(fn)]
        if a.vararg:
            extra = [XS, make_param(I, a.vararg.arg) | XS]
            args.extend(extra[-I.config.get('nvararg', 2):])
        kw = {}
        for p in a.kwonlyargs:
            kw[p.arg] = make_arg(I, fn, q, p.arg, cls, nd, fr, nets)
        if a.kwarg:
            # options read from **kwargs by name
            for k in sorted(kwarg_names(fn)):
                kw[k] = XS | (fs(make_net(I, cls, k)) if not I.config.get('no_output_net') and k.lower() in ("newnet", "net") else BOTTOM)
        ff = fs(('f', [k for k, v in I.funcs.items() if v.node is fn][0]))
        return (lambda: I.call(ff, args, kw, nd, env, fr)), nets, fr, nd
    # methods
    cq = q.rpartition(".")[0]
    mname = q.rpartition(".")[2]
    ps = params_of(fn)[1:]
    if cq in NET_CLASSES:
        recv = fs(make_net(I, cls, "self", **I.config.get('net_pins', {})))
        args = [make_arg(I, fn, q, p, cls, nd, fr, nets) for p in ps]
    elif cq == "pymnet.net.MultilayerNode":
        net = fs(make_net(I, cls, "self"))
        recv = None
        args = [XS for p in ps]
    elif cq == "pymnet.net.MultiplexIntraNetDict":
        net = fs(make_net(I, MX, "self"))
        recv = None
        args = [XS for p in ps]
    else:
        net = None
        recv = None
        init = I.pkg.functions.get(cq + ".__init__")
        iargs = []
        if init is not None:
            inets = net_params(init)
            iargs = [make_arg(I, init, cq + ".__init__", p, cls, nd, fr, inets) for p in params_of(init)[1:]]
        args = [make_arg(I, fn, q, p, cls, nd, fr, nets) for p in ps]
    if fn.args.vararg:
        args.append(XS)

    def thunk():
        r = recv
        if r is None:
            if cq == "pymnet.net.MultilayerNode":
                r = I.subscript(net, XS, nd, env, fr)
            elif cq == "pymnet.net.MultiplexIntraNetDict":
                r = I.getattr_atoms(net, "A", nd, env, fr)
            elif mname == "__init__":
                return I.call(fs(('k', ('cls', cq))), iargs, {}, nd, env, fr)
            else:
                r = I.call(fs(('k', ('cls', cq))), iargs, {}, nd, env, fr)
        r = frozenset(x for x in r if x[0] == 'o' and I.kind.get(x[1]) == 'inst')
        return I.call(I.getattr_atoms(r, mname, nd, env, fr), args, {}, nd, env, fr)
    return thunk, nets, fr, nd


def kwarg_names(fn):
    out = set()
    kw = fn.args.kwarg.arg
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == kw \
                and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            out.add(n.slice.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == kw and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            out.add(n.args[0].value)
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) \
                and any(isinstance(c, ast.Name) and c.id == kw for c in n.comparators):
            out.add(n.left.value)
    return out


def analyse(entry, k=2, budget=None, post=None):
    """run one entry point to a fixpoint; everything returned is picklable"""
    I = base(k)
    t0 = time.time()
    if budget:
        I.budget = budget
    try:
        thunk, nets, fr, nd = setup(I, entry)
        I.phase = 'E'
        r = I.fixpoint(thunk)
        env = {'$mut': BOTTOM}
        for a in list(r):
            if a[0] == 'o' and I.kind[a[1]] in ('iter', 'gen'):
                r = r | I.fixpoint(lambda: I.iterate(r, nd, env, fr))
        complete = I.depth_hits == 0
    except Budget:
        r, complete, nets = frozenset(), False, []
    out = dict(entry=entry, nets=nets, net_labels=sorted(getattr(I, 'net_labels', ())), seconds=time.time() - t0, contexts=len(I.contexts), complete=complete,
               functions=len(I.reached_functions), call_sites=len(I.call_sites),
               runs=I.runs, loops=len(I.loop_sites),
               reached=sorted(I.reached_functions),
               events=[dict(v) for v in I.events.values()],
               iters=[dict(v, origin=I.origin.get(o)) for o, v in iter_pairs(I)],
               attr=sorted((k_, [str(b) for b in v[1]]) for k_, v in I.attr_bad.items() if k_ not in I.attr_ok),
               call=sorted((str(k_), str(v)) for k_, v in I.call_bad.items() if k_ not in I.call_ok))
    if I.config.get("lookups"):
        out["attr_ok"], out["call_ok"] = set(I.attr_ok), set(map(str, I.call_ok))
        out["attr_bad"] = {k_: [str(b) for b in v[1]][:3] for k_, v in I.attr_bad.items()}
        out["call_bad"] = {str(k_): str(v[1]) for k_, v in I.call_bad.items()}
    if post:
        out["post"] = post(I, entry, r)
    return out


def iter_pairs(I):
    return [(v.get("oid"), {k: x for k, x in v.items() if k != "oid"}) for v in I.iter_events.values()]
