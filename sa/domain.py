"""Abstract 'arbitrary network' arguments: the closure of a constructor call
under every mutator of the network classes, so that the analysed code meets a
heap describing every network a history of calls could have built."""
import ast
from .interp import Interp, X, XS, NONE, fs, const, BOTTOM
from .model import loc, AnalysisError, enclosing_class, params_of

ML = "pymnet.net.MultilayerNetwork"
MX = "pymnet.net.MultiplexNetwork"
NET_CLASSES = (ML, MX)


def node_at(I, modname):
    """a synthetic call node used as the site of entry calls"""
    n = ast.Call(func=ast.Name(id="entry", ctx=ast.Load()), args=[], keywords=[])
    n.lineno = 0; n.col_offset = 0
    n._mod = I.pkg.modules[modname]
    n._parent = None
    return n


def make_net(I, cls, label, directed=None, full=None, aspects=None, protect=True, noedge=None, couplings=None):
    """-> atom of an arbitrary network of the given class"""
    if ('cls', cls) not in I.classes:
        raise AnalysisError("anchor class %s is missing" % cls)
    old = I.phase
    I.phase = 'P:' + label
    oldk, I.K = I.K, 2
    fr = I.toplevel_frame("pymnet.net", "make:" + label)
    nd = node_at(I, "pymnet.net")
    b = lambda v: XS if v is None else fs(const(v))
    holder = {}

    def step():
        env = {'$mut': BOTTOM}
        if cls == MX:
            cp = [I.mktuple([XS, XS], nd, fr)]
            if couplings is not None:
                lst = couplings(I, nd, fr, env)
            else:
                lst = I.obj('list', nd, fr, cp[0], 'couplings')
            kw = {"couplings": lst, "directed": b(directed), "fullyInterconnected": b(full),
                  "noEdge": fs(('x', 'noEdge')) if noedge is None else noedge}
        else:
            kw = {"aspects": b(aspects), "directed": b(directed), "fullyInterconnected": b(full),
                  "noEdge": fs(('x', 'noEdge')) if noedge is None else noedge}
        r = I.call(fs(('k', ('cls', cls))), [], kw, nd, env, fr)
        a = [x for x in r if x[0] == 'o'][0]
        holder['a'] = a
        if aspects is not None:
            I.pinned[(a[1], 'aspects')] = fs(const(aspects))
        if cls == MX and couplings is None:
            cn = make_coupling(I, label, nd, fr, env, b(directed))
            for t in I.get(a[1], 'couplings'):
                if t[0] == 'o':
                    I.put(t[1], '[]', I.mktuple([cn], nd, fr) | I.mktuple([XS, XS], nd, fr))
        call = lambda m, *args: I.call(I.getattr_atoms(fs(a), m, nd, env, fr), list(args), {}, nd, env, fr)
        call("add_node", XS)
        call("add_node", XS, XS)
        call("add_layer", XS, XS)
        n = 2 if aspects is None else aspects + 1
        for ln in sorted({n + 1, 2 * n} if n > 1 else {2}):
            key = I.mktuple([XS] * ln, nd, fr)
            I.setitem(a, key, XS, nd, env, fr)
        I.setitem(a, XS, XS, nd, env, fr)
        if cls == MX:
            A = I.getattr_atoms(fs(a), "A", nd, env, fr)
            inner = I.subscript(A, XS, nd, env, fr)
            for x in inner:
                if x[0] == 'o':
                    I.setitem(x, I.mktuple([XS, XS], nd, fr), XS, nd, env, fr)
                    I.call(I.getattr_atoms(fs(x), "add_node", nd, env, fr), [XS], {}, nd, env, fr)
        return a
    I.fixpoint(step)
    a = holder['a']
    if protect:
        if not hasattr(I, "net_labels"):
            I.net_labels = set()
        I.net_labels.add(label)
        for o in I.reachable(fs(a)):
            if o not in I.origin:
                I.origin[o] = label
    I.phase = old
    I.K = oldk
    return a


def make_coupling(I, label, nd, fr, env, directed):
    r = I.call(fs(('k', ('cls', ML))), [], {"aspects": fs(const(0)), "directed": directed}, nd, env, fr)
    for a in r:
        if a[0] == 'o':
            I.setitem(a, I.mktuple([XS, XS], nd, fr), XS, nd, env, fr)
    return frozenset(r)


def make_param(I, label, default=None):
    """an arbitrary caller-owned argument of unknown shape"""
    oid = ('param', label)
    I.kind[oid] = 'param'
    I.origin[oid] = label
    return fs(('o', oid))


NET_ATTRS = {"slices", "aspects", "iter_layers", "iter_node_layers", "edges", "couplings", "fullyInterconnected",
             "noEdge", "get_layers", "add_layer", "intranets", "iter_nodes", "_link_to_nodes", "_nodes_to_link",
             "_nodeToLayers", "get_supra_adjacency_matrix"}
NET_NAMES = {"net", "network", "newnet", "mnet", "net1", "net2", "anet", "network1", "network2", "othernet",
             "multinet", "multiplex", "parent"}


def net_params(fn):
    """names of the parameters of fn that are networks"""
    out = []
    for p in params_of(fn):
        if p.lower() in NET_NAMES:
            out.append(p); continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in NET_ATTRS:
                out.append(p)
                break
    return out


def is_public(q):
    return not any(x.startswith('_') for x in q.split('.')[1:])


def public_functions(pkg):
    """top level functions of every analysed module"""
    out = []
    for q, n in sorted(pkg.functions.items()):
        mod = q.rpartition('.')[0]
        if mod in pkg.modules and is_public(q):
            out.append((q, mod, n))
    return out
NETS_PARENT = "pymnet.net.MultilayerNetworkWithParent"
