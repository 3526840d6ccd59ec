"""Abstract networks for the path-sensitive rules: the tables of a network hold
arbitrary content described by membership facts (which node-layers have a row,
which links exist, which nodes and layers are registered)."""
from ..flow import (Flow, Sym, Gen, Lin, Expr, UNK, Inst, ClassRef, PDict, PSet, AbsDict, AbsSet, Seq, Each, Prod,
                    PyRaise, Unsupported, Dead, DEL, unwrap)
from ..domain import ML, MX

NE = Sym("noEdge", "weight")
WP = "pymnet.net.MultilayerNetworkWithParent"


def key(x):
    return ",".join(map(repr, x)) if isinstance(x, tuple) else repr(x)


class World(object):
    """one abstract network and the facts about its tables"""

    def __init__(self, fl, aspects, directed, full, tag="", registered=None):
        self.fl, self.aspects, self.directed, self.full, self.tag = fl, aspects, directed, full, tag
        self.w = {}          # weight symbol name -> (x, y)
        self.gens = []       # (fact function, generic element): membership assumed at creation
        self.reg = registered or (lambda x: None)
        self.focus = []      # the node-layers listed one by one when a table is walked
        self.others = True   # and one arbitrary other element

    def abs(self, c):
        """without others, the focused elements are the whole content"""
        c.closed = lambda: not self.others
        return c

    # -------- facts
    def canon(self, x):
        """replace generic elements that were found equal to a name"""
        if isinstance(x, tuple):
            return tuple(self.canon(y) for y in x)
        if isinstance(x, Gen):
            for k, v in self.fl.facts.items():
                if v is True and k[0] == "eq" and x.name in k[1:]:
                    o = k[1] if k[2] == x.name else k[2]
                    s = self.fl.names.get(o)
                    if s is not None and not isinstance(s, Gen):
                        return s
        return x

    def fact(self, *k):
        return self.fl.choose((self.tag,) + k)

    def known(self, *k):
        return self.fl.facts.get((self.tag,) + k)

    def assume(self, v, *k):
        k = (self.tag,) + k
        if self.fl.facts.get(k, v) != v:
            raise Dead()
        self.fl.facts[k] = v

    def lk(self, x, y):
        a, b = key(self.canon(x)), key(self.canon(y))
        if not self.directed and b < a:
            a, b = b, a
        return ("link", a, b)

    def possible(self, x):
        """the facts so far do not exclude that the node-layer is registered"""
        return True

    def row(self, x):
        x = self.canon(x)
        if self.known("row", key(x)) is None and not self.possible(x):
            self.assume(False, "row", key(x))
        v = self.fact("row", key(x))
        if v:
            self.reg(x)
        return v

    def link(self, x, y):
        k = self.lk(x, y)
        if self.known(*k) is None:
            for z in (x, y):
                z = key(self.canon(z))
                if self.known("row", z) is False or self.known("td", z) is False:
                    self.assume(False, *k)
                    return False
            if not (self.possible(self.canon(x)) and self.possible(self.canon(y))):
                self.assume(False, *k)
                return False
        v = self.fact(*k)
        if v:
            for z in (x, y):
                self.assume(True, "row", key(self.canon(z)))
                if self.directed:
                    self.assume(True, "td", key(self.canon(z)))
                self.reg(self.canon(z))
        return v

    def weight(self, x, y):
        a, b = self.canon(x), self.canon(y)
        if not self.directed and key(b) < key(a):
            a, b = b, a
        s = Sym("W%s[%s|%s]" % (self.tag, key(a), key(b)), "weight")
        self.w[s.name] = (a, b)
        return s

    def recanon(self, v):
        """a weight read before two names were found equal"""
        if isinstance(v, Sym) and v.name in self.w:
            return self.weight(*self.w[v.name])
        return v

    def generic(self, n, assumed, named):
        g = tuple(self.fl.gen(n == 1) for _ in range(n))
        self.gens.append((assumed, g, named))
        return g

    def consistent(self):
        """drop paths whose facts about a generic element contradict those about the name it equals"""
        for assumed, g, named in self.gens:
            c = self.canon(g)
            if not any(isinstance(y, Gen) for y in c):
                if c in named or not assumed(c):
                    raise Dead()

    # -------- tables
    def rows(self, name, forward):
        d = self.aspects + 1

        def get(fl, x):
            x = self.canon(x)

            def has(fl, y):
                return self.link(x, y) if forward else self.link(y, x)

            def val(fl, y):
                return self.weight(x, y) if forward else self.weight(y, x)

            def gen(fl):
                named = list(self.focus)
                if not self.others or not fl.choose((self.tag, "others", name, key(x))):
                    return None, named
                g = self.generic(d, lambda y: has(fl, y), named)
                if not has(fl, g):
                    raise Dead()
                return g, named
            return self.abs(AbsDict("%s%s[%s]" % (self.tag, name, key(x)), has, val, gen))

        def rgen(fl):
            named = list(self.focus)
            if not self.others or not fl.choose((self.tag, "others", name)):
                return None, named
            g = self.generic(d, self.row, named)
            if not self.row(g):
                raise Dead()
            return g, named
        return self.abs(AbsDict(self.tag + name, lambda fl, x: self.row(x), get, rgen))

    def total(self):
        """the stored total degree of a node-layer; present whenever it has a row and a link was ever set"""
        def has(fl, x):
            x = self.canon(x)
            v = self.fact("td", key(x))
            return v

        def get(fl, x):
            x = self.canon(x)
            if not self.others:
                return sum(1 for y in self.focus if self.link(x, y) or self.link(y, x))
            return Lin("TD[%s]" % key(x))
        return AbsDict(self.tag + "_totalDegree", has, get)


def new_flow(pkg):
    return Flow(pkg)


def names(fl, *ns):
    r = []
    for n in ns:
        s = Sym(n)
        fl.names[n] = s
        r.append(s)
    return r


def table_ok(inst, *names):
    return all(isinstance(inst.attrs.get(n), PDict) and not inst.attrs[n].items_ for n in names)


class MLWorld(World):
    """a MultilayerNetwork with arbitrary content"""

    def __init__(self, fl, aspects, directed, full, tag="", cls=ML, net=None):
        World.__init__(self, fl, aspects, directed, full, tag, self.register)
        if net is None:
            net = fl.call_value(ClassRef(cls), [], {"aspects": aspects, "directed": directed, "noEdge": NE,
                                                   "fullyInterconnected": full}, None)
        self.net = net
        if not table_ok(net, "_net") or (directed and not table_ok(net, "_rnet", "_totalDegree")):
            raise Unsupported("the link tables of %s are not the expected dictionaries" % cls)
        if aspects and not full and not table_ok(net, "_layerToNodes", "_nodeToLayers"):
            raise Unsupported("the membership tables of %s are not the expected dictionaries" % cls)
        sl = net.attrs.get("slices")
        if not isinstance(sl, list) or len(sl) != aspects + 1:
            raise Unsupported("slices")
        net.attrs["_net"] = self.rows("_net", True)
        if directed:
            net.attrs["_rnet"] = self.rows("_rnet", False)
            net.attrs["_totalDegree"] = self.total()
        net.attrs["slices"] = [self.slice_(a) for a in range(aspects + 1)]
        if aspects and not full:
            net.attrs["_layerToNodes"] = self.membership("_layerToNodes", False)
            net.attrs["_nodeToLayers"] = self.membership("_nodeToLayers", True)

    # -------- registration facts
    def lay(self, x):
        """the layer part of a node-layer as the membership tables store it"""
        return x[1] if self.aspects == 1 else tuple(x[1:])

    def is_in(self, a, e):
        return self.fact("in", a, key(self.canon(e)))

    def member(self, n, l):
        n, l = self.canon(n), self.canon(l)
        k = ("nl", key(n), key(l))
        if self.known(*k) is None:
            parts = [l] if self.aspects == 1 else list(l)
            no = [("in", 0, key(n)), ("ntl", key(n)), ("ltn", key(l))] + [("in", i + 1, key(e)) for i, e in enumerate(parts)]
            if any(self.known(*z) is False for z in no):
                self.assume(False, *k)
                return False
        v = self.fact(*k)
        if v:
            self.assume_member(n, l)
        return v

    def assume_member(self, n, l):
        n, l = self.canon(n), self.canon(l)
        self.assume(True, "nl", key(n), key(l))
        self.assume(True, "ntl", key(n))
        self.assume(True, "ltn", key(l))
        self.assume(True, "in", 0, key(n))
        for i, e in enumerate([l] if self.aspects == 1 else list(l)):
            self.assume(True, "in", i + 1, key(e))

    def register(self, x):
        """node-layers with links are registered"""
        x = self.canon(x)
        for a, e in enumerate(x):
            self.assume(True, "in", a, key(e))
        if self.aspects and not self.full:
            self.assume_member(x[0], self.lay(x))

    def possible(self, x):
        for a, e in enumerate(x):
            if self.known("in", a, key(e)) is False:
                return False
        if self.aspects and not self.full:
            l = self.lay(x)
            return not (self.known("nl", key(x[0]), key(l)) is False or self.known("ntl", key(x[0])) is False or
                        self.known("ltn", key(l)) is False)
        return True

    def names_of(self, a):
        """the focused values of one coordinate, or of the layer part (None)"""
        r = []
        for x in self.focus:
            e = self.lay(x) if a is None else x[a]
            if e not in r:
                r.append(e)
        return r

    def slice_(self, a):
        def gen(fl):
            named = self.names_of(a)
            if not self.others or not fl.choose((self.tag, "others in slice", a)):
                return None, named
            g = self.generic(1, lambda y: self.is_in(a, y[0]), [(e,) for e in named])[0]
            if not self.is_in(a, g):
                raise Dead()
            return g, named
        return self.abs(AbsSet("%sslices[%d]" % (self.tag, a), lambda fl, e: self.is_in(a, e), gen))

    def membership(self, name, by_node):
        kind = "ntl" if by_node else "ltn"

        def has(fl, k):
            if getattr(self, "exact", False):
                # present exactly when some membership was recorded
                ks = self.names_of(None) if by_node else self.names_of(0)
                return any([self.member(*((k, e) if by_node else (e, k))) for e in ks])
            return self.fact(kind, key(self.canon(k)))

        def get(fl, k):
            k = self.canon(k)
            mem = (lambda fl, e: self.member(k, e)) if by_node else (lambda fl, e: self.member(e, k))

            def gen(fl):
                named = self.names_of(None) if by_node else self.names_of(0)
                if not self.others or not fl.choose((self.tag, kind + " others", key(k))):
                    return None, named
                if by_node and self.aspects > 1:
                    g = self.generic(self.aspects, lambda y: mem(fl, y), named)
                else:
                    g = self.generic(1, lambda y: mem(fl, y[0]), [(e,) for e in named])[0]
                if not mem(fl, g):
                    raise Dead()
                return g, named
            return self.abs(AbsSet("%s%s[%s]" % (self.tag, name, key(k)), mem, gen))
        def kgen(fl):
            named = self.names_of(0 if by_node else None)
            if self.others:
                raise Unsupported("walking " + name)
            return None, named
        return self.abs(AbsDict(self.tag + name, has, get, kgen))


def full_link(x, y):
    r = []
    for a, b in zip(x, y):
        r += [a, b]
    return tuple(r)


class IntraWorld(World):
    """the network of one layer of a multiplex network"""

    def __init__(self, parent, layer, inst):
        fl = parent.fl
        lt = (layer,) if parent.aspects == 1 else tuple(layer)
        World.__init__(self, fl, 0, parent.directed, parent.full, "%sA[%s]:" % (parent.tag, key(layer)),
                       lambda x: parent.register(tuple(x) + lt))
        self.net = inst
        self.possible = lambda x: parent.possible(tuple(x) + lt)
        self.others = parent.others
        self.focus = []
        for x in parent.focus:
            if x[:1] not in self.focus:
                self.focus.append(x[:1])
        if not table_ok(inst, "_net") or (self.directed and not table_ok(inst, "_rnet", "_totalDegree")):
            raise Unsupported("the link tables of an intra-layer network are not the expected dictionaries")
        inst.attrs["_net"] = self.rows("_net", True)
        if self.directed:
            inst.attrs["_rnet"] = self.rows("_rnet", False)
            inst.attrs["_totalDegree"] = self.total()
        if not self.full:
            if not (isinstance(inst.attrs.get("slices"), list) and len(inst.attrs["slices"]) == 1):
                raise Unsupported("slices of an intra-layer network")
            mem = lambda fl, n: parent.member(n, layer)

            def gen(fl):
                named = parent.names_of(0)
                if not parent.others or not fl.choose((self.tag, "others in slice", 0)):
                    return None, named
                g = self.generic(1, lambda y: mem(fl, y[0]), [(e,) for e in named])[0]
                if not mem(fl, g):
                    raise Dead()
                return g, named
            inst.attrs["slices"] = [self.abs(AbsSet(self.tag + "slices[0]", mem, gen))]


class MXWorld(MLWorld):
    """a MultiplexNetwork with arbitrary content; couplings as given"""

    def __init__(self, fl, couplings, directed, full, tag=""):
        World.__init__(self, fl, len(couplings), directed, full, tag, self.register)
        self.couplings = couplings
        net = fl.call_value(ClassRef(MX), [], {"couplings": list(couplings), "directed": directed, "noEdge": NE,
                                               "fullyInterconnected": full}, None)
        self.net = net
        sl = net.attrs.get("slices")
        if not isinstance(sl, list) or len(sl) != self.aspects + 1:
            raise Unsupported("slices")
        A = net.attrs.get("A")
        if not isinstance(A, Inst) or net.attrs.get("intranets") is not A or not table_ok(A, "_dict"):
            raise Unsupported("the intra-layer networks are not in the expected dictionary")
        if not full and not table_ok(net, "_nodeToLayers"):
            raise Unsupported("the membership table is not the expected dictionary")
        net.attrs["slices"] = [self.slice_(a) for a in range(self.aspects + 1)]
        if not full:
            net.attrs["_nodeToLayers"] = self.membership("_nodeToLayers", True)
        self.intra = []
        self.A = A

        def elems(l):
            return [l] if self.aspects == 1 else list(l)

        def has(fl, l):
            if self.aspects > 1 and not (isinstance(l, tuple) and len(l) == self.aspects):
                return False
            return all([self.is_in(a + 1, e) for a, e in enumerate(elems(l))])

        def get(fl, l):
            l = self.canon(l)
            for k, iw in self.intra:
                if k == l:
                    return iw.net
            keep = A.attrs["_dict"]
            A.attrs["_dict"] = PDict()
            fl.call_value(fl.attr(A, "_add_empty_network", None), [l], {}, None)
            got = A.attrs["_dict"].items_
            A.attrs["_dict"] = keep
            if len(got) != 1 or not isinstance(got[0][1], Inst):
                raise Unsupported("an intra-layer network")
            iw = IntraWorld(self, l, got[0][1])
            self.intra.append((l, iw))
            return iw.net

        def gen(fl):
            if self.others:
                raise Unsupported("walking the intra-layer networks")
            return None, self.names_of(None)
        A.attrs["_dict"] = AbsDict(tag + "A", has, get, gen)

    def recanon(self, v):
        v = World.recanon(self, v)
        for _, iw in getattr(self, "intra", ()):
            v = iw.recanon(v)
        return v

    def layer_world(self, layer):
        """facts about the links of a layer"""
        for k, iw in self.intra:
            if k == self.canon(layer):
                return iw
        self.fl.dget(self.A.attrs["_dict"], layer, None)
        return self.layer_world(layer)

    def consistent(self):
        World.consistent(self)
        for _, iw in self.intra:
            iw.consistent()


def closed(fl, spec):
    """a network whose whole content is a few representative node-layers:
    spec = (class, aspects, directed, full, coupling[, tag of the facts, other name for a layer, layers differ in the second aspect])"""
    cls, aspects, directed, full, coupling = spec[:5]
    tag = spec[5] if len(spec) > 5 else ""
    i, j = names(fl, "i", "j")
    s, u = names(fl, "s", "u" if len(spec) < 7 or not spec[6] else "v")
    t, = names(fl, "t")
    # the elementary layers of two aspects: the focused layers differ in the first aspect, or in the second
    lay = (lambda x: (t, x)) if len(spec) > 7 and spec[7] else (lambda x: (x, t))
    if cls == "ML":
        w = MLWorld(fl, aspects, directed, full, tag=tag)
        if aspects == 0:
            foc = [(i,), (j,), tuple(names(fl, "k"))]
            grid = foc
        elif aspects == 1:
            foc = [(i, s), (j, s), (i, u)]
            grid = foc + [(j, u)]
        else:
            foc = [(i,) + lay(s), (j,) + lay(s), (i,) + lay(u)]
            grid = foc + [(j,) + lay(u)]
        w.focus = foc
    else:
        w = MXWorld(fl, list(coupling) if isinstance(coupling[0], tuple) else [coupling] * aspects, directed, full, tag=tag)
        if aspects == 1:
            grid = [(i, s), (j, s), (i, u), (j, u)]
        else:
            grid = [(a,) + lay(b) for b in (s, u) for a in (i, j)]
        w.focus = foc = grid
    w.others = False
    w.grid = grid
    for x in grid:
        for a, e in enumerate(x):
            w.assume(True, "in", a, key(e))
    if cls == "ML":
        for x in grid:
            if x not in foc:
                w.assume(False, "row", key(x))
        if directed and aspects:
            for x in foc:
                w.assume(False, *w.lk(x, x))
        if aspects and not full:
            # only the node-layers with links and one without are of interest
            w.assume_member(foc[0][0], w.lay(foc[0]))
            for n in (grid[0], grid[1]):
                w.assume(True, "ntl", key(n[0]))
            for n in grid:
                w.assume(True, "ltn", key(w.lay(n)))
    else:
        for x in grid:
            lw = w.layer_world(w.lay(x))
            lw.assume(False, *lw.lk(x[:1], x[:1]))
        if not full:
            for n in (i, j):
                w.assume(True, "ntl", key(n))
    return w


def has_nl(w, x):
    return True if w.full or not w.aspects else w.member(x[0], w.lay(x))


def links_of(fl, w, coupling_value=None):
    """{(x, y): weight} of a closed world, from its facts"""
    r = {}
    g = w.grid
    for x in g:
        for y in g:
            if isinstance(w, MXWorld):
                if x[1:] == y[1:]:
                    if x[0] == y[0]:
                        continue
                    lw = w.layer_world(w.lay(x))
                    if lw.row(x[:1]) and lw.row(y[:1]) and lw.link(x[:1], y[:1]):
                        r[(x, y)] = lw.weight(x[:1], y[:1])
                elif x[0] == y[0] and sum(1 for a, b in zip(x, y) if a != b) == 1:
                    a = [k for k in range(len(x)) if x[k] != y[k]][0]
                    c = w.couplings[a - 1]
                    if c[0] == "categorical" and has_nl(w, x) and has_nl(w, y):
                        r[(x, y)] = c[1]
            elif w.row(x) and w.row(y) and w.link(x, y):
                r[(x, y)] = w.weight(x, y)
    return r


CAT = ("categorical", Sym("c", "weight"))
SPECS = [("ML", 0, False, True, None), ("ML", 0, True, True, None)] + \
    [("ML", a, d, f, None) for a in (1, 2) for d in (False, True) for f in (True, False)] + \
    [("MX", a, d, f, c) for a in (1, 2) for d in (False, True) for f in (True, False) for c in (CAT, ("none",))]
# two aspects, with layers that differ in the second one
MIXED = [("MX", 2, False, f, c, "", False, l) for f in (True, False) for l in (True, False) for c in ((CAT, ("none",)), (("none",), CAT))]
LATE = [s + ("", False, True) for s in SPECS if s[1] == 2]
