"""Path-sensitive abstract interpretation of small methods over membership facts.

The tables of a network (dictionaries and sets keyed by node names) are abstract
objects.  What is known about them before an operation is a set of membership
facts that are decided only when the code asks; the code's writes are recorded
as an overlay.  Node and layer names, weights and the missing-link value are
opaque tokens that the code can only compare, so finitely many abstract states
cover all networks.  Every branch on an undecided fact is followed both ways.
The methods are read from the syntax trees on each run; nothing is executed."""
import ast, math, os, time
from .model import loc, AnalysisError
from .alg import Alg, Undecided

MAXPATHS = 12000
DEADLINE = [0]          # set by the driver: no new path is started after it
STRICT_INTERNAL = bool(os.environ.get("SA_STRICT"))
MAXSTEPS = 60000


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, msg="", node=None):
        Exception.__init__(self, name)
        self.name, self.msg, self.where = name, msg, loc(node) if node is not None else "?"


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Dead(Exception):
    """the assumed facts contradict each other"""


def _builtin(name):
    import builtins
    return hasattr(builtins, name)


class Sym(object):
    """an opaque name or weight; different symbols are different values"""
    def __init__(self, name, kind="name"):
        self.name, self.kind = name, kind

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)


class Gen(Sym):
    """an arbitrary element; may or may not be equal to other names"""
    distinct = False      # True: known to differ from every declared name


class Lin(object):
    """an unknown integer plus a known offset"""
    def __init__(self, base, k=0):
        self.base, self.k = base, k

    def __repr__(self):
        return "%s%+d" % (self.base, self.k) if self.k else str(self.base)

    def __eq__(self, o):
        return isinstance(o, Lin) and (o.base, o.k) == (self.base, self.k)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.base, self.k))


class Expr(object):
    """an uninterpreted combination of values"""
    def __init__(self, op, *args):
        self.op, self.args = op, args

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))

    def __eq__(self, o):
        return isinstance(o, Expr) and (o.op, o.args) == (self.op, self.args)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.op, repr(self.args)))


class _Unk(object):
    """a value nothing is known about; comparing it has no answer"""
    def __repr__(self):
        return "?"

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison with an unknown value")

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0


UNK = _Unk()
DEL = object()


class Obj(object):
    pass


class Inst(Obj):
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return "<%s>" % self.cls.rpartition(".")[2]


class ClassRef(object):
    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, ClassRef) and o.q == self.q

    def __hash__(self):
        return hash(self.q)

    def __repr__(self):
        return self.q


class BType(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, BType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Fn(object):
    def __init__(self, node, modname, env=None, selfv=None, cls=None):
        self.node, self.modname, self.env, self.selfv, self.cls = node, modname, env, selfv, cls


class Native(object):
    def __init__(self, f, name=""):
        self.f, self.name = f, name


class Mod(object):
    def __init__(self, name):
        self.name = name


class PDict(Obj):
    """a dictionary whose content is completely known"""
    def __init__(self, items=()):
        self.items_ = list(items)


class DefDict(PDict):
    """collections.defaultdict; with no factory and count, collections.Counter"""
    def __init__(self, items=(), factory=None, count=False):
        PDict.__init__(self, items)
        self.factory, self.count = factory, count


class Deque(list):
    pass


class PSet(Obj):
    def __init__(self, items=()):
        self.items_ = list(items)


class AbsDict(Obj):
    """a dictionary known only through facts about its state before the operation"""
    def __init__(self, name, has, get, gen=None):
        self.name, self.has, self.get0, self.gen = name, has, get, gen
        self.over = []            # [key, value or DEL]
        self.cache = []

    def __repr__(self):
        return self.name


class AbsSet(Obj):
    def __init__(self, name, has, gen=None):
        self.name, self.has, self.gen = name, has, gen
        self.over = []

    def __repr__(self):
        return self.name


COLON = slice(None, None, None)
BUILTIN_EXC = {"KeyError", "ValueError", "TypeError", "IndexError", "Exception", "AssertionError", "AttributeError",
               "NotImplementedError", "StopIteration", "RuntimeError", "LookupError", "NameError", "UnboundLocalError"}
EXC_PARENTS = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "NotImplementedError": ("RuntimeError",),
               "UnboundLocalError": ("NameError",), "NetworkXPointlessConcept": ("NetworkXException",)}


class Flow(object):
    def __init__(self, pkg):
        self.pkg = pkg
        self.props = {}
        for m in pkg.modules.values():
            for s in ast.walk(m.tree):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and \
                        isinstance(s.targets[0].value, ast.Name) and isinstance(s.value, ast.Call) and \
                        isinstance(s.value.func, ast.Name) and s.value.func.id == "property" and s.value.args:
                    cq = m.name + "." + s.targets[0].value.id
                    self.props[(cq, s.targets[0].attr)] = (s.value.args[0], m.name)
        self.reached = set()
        self.hooks = {}
        self._mro = {}
        self._globals, self._imports = {}, {}
        self.maxsteps = MAXSTEPS
        self.strict = True            # a decision that depends on an unknown value ends the path without an answer
        self.free = set()             # names of values that may equal other values
        self.pop_first = False       # sets give up their elements in the order they got them
        self.sums_differ = False      # sums of weights never equal other values

    # ------------------------------------------------------------ exploration
    def explore(self, scenario):
        """run the scenario along every combination of undecided facts; yields
        (facts, outcome) with outcome whatever the scenario returns"""
        prefix = []
        n = 0
        while True:
            self.script, self.pos, self.facts, self.steps = list(prefix), 0, {}, 0
            self.depth = 0
            self.counter = 0
            self.names = {}
            n += 1
            if n > MAXPATHS:
                yield None, ("abstain", "too many paths")
                return
            try:
                out = scenario(self)
                yield dict(self.facts), out
            except Dead:
                pass
            except Unsupported as e:
                yield dict(self.facts), ("abstain", str(e))
            except RecursionError:
                yield dict(self.facts), ("abstain", "recursion")
            except (_Return, _Break, _Continue, PyRaise):
                raise
            except Exception as e:         # a construct the interpreter does not expect
                if STRICT_INTERNAL:
                    raise
                yield dict(self.facts), ("abstain", "internal: %s %s" % (type(e).__name__, str(e)[:80]))
            if DEADLINE[0] and time.time() > DEADLINE[0]:
                yield None, ("abstain", "time")
                return
            prefix = self.script[:self.pos]
            while prefix and prefix[-1] is False:
                prefix.pop()
            if not prefix:
                return
            prefix[-1] = False

    def choose(self, key):
        if key in self.facts:
            return self.facts[key]
        if self.strict and isinstance(key[0], str) and key[0].startswith("unknown"):
            raise Unsupported(key[0])
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            self.script.append(v)
        self.pos += 1
        self.facts[key] = v
        return v

    def fresh(self, name):
        self.counter += 1
        return "%s#%d" % (name, self.counter)

    def gen(self, distinct=False):
        g = Gen(self.fresh("?g"))
        g.distinct = distinct
        return g

    # ------------------------------------------------------------------ values
    def eq(self, a, b):
        if isinstance(a, Alg) or isinstance(b, Alg):
            if not all(isinstance(x, (Alg, int, float)) for x in (a, b)):
                return False
            if Alg.same(a, b):
                return True
            try:
                return not (a.differ(b) if isinstance(a, Alg) else b.differ(a))
            except Undecided as e:
                raise Unsupported(str(e))
        if a is UNK or b is UNK:
            return self.choose(("unknown comparison", self.fresh("c")))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, Gen) or isinstance(b, Gen):
            if not (isinstance(a, Sym) and isinstance(b, Sym)):
                if a is None or b is None or isinstance(a, (tuple, slice)) or isinstance(b, (tuple, slice)):
                    return False
                return self.choose(("eq",) + tuple(sorted([repr(a), repr(b)])))
            if a == b:
                return True
            if not isinstance(a, Gen) and b.distinct and a.name in self.names or \
                    not isinstance(b, Gen) and a.distinct and b.name in self.names:
                return False
            if not isinstance(a, Gen) or not isinstance(b, Gen):
                g, o = (a, b) if isinstance(a, Gen) else (b, a)
                # equal to at most one of the distinct symbols
                for (k, v) in list(self.facts.items()):
                    if v is True and k[0] == "eq" and g.name in k[1:] and o.name not in k[1:]:
                        oth = k[1] if k[2] == g.name else k[2]
                        if not oth.startswith("?"):
                            return False
            return self.choose(("eq",) + tuple(sorted([a.name, b.name])))
        if isinstance(a, Lin) and isinstance(b, Lin) and a.base == b.base:
            return a.k == b.k
        if isinstance(a, (Lin, Expr)) or isinstance(b, (Lin, Expr)):
            if a is None or b is None or isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
                return False
            if a == b:
                return True
            if self.sums_differ and isinstance(a, (Expr, Sym)) and isinstance(b, (Expr, Sym)):
                return False
            return self.choose(("eq",) + tuple(sorted([repr(a), repr(b)])))
        if self.free and isinstance(a, Sym) and isinstance(b, Sym) and a != b and (a.name in self.free or b.name in self.free):
            # equal to at most one value; an order already known excludes it
            k = tuple(sorted([a.name, b.name]))
            if ("less",) + k in self.facts:
                return False
            return self.choose(("eq",) + k)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Inst):
                m = self.find(a.cls, "__eq__")
                if m and a is not b:
                    return self.truth(self.call_value(self.attr(a, "__eq__", None), [b], {}, None))
            if a is b:
                return True
            if isinstance(a, (PSet, AbsSet)) and isinstance(b, (PSet, AbsSet)) and self.enumerable(a) and self.enumerable(b):
                xs, ys = self.iterate(a), self.iterate(b)
                return len(xs) == len(ys) and all(any(self.eq(x, y) for y in ys) for x in xs)
            if isinstance(a, (PDict, AbsDict)) and isinstance(b, (PDict, AbsDict)) and self.enumerable(a) and self.enumerable(b):
                xs, ys = self.iterate(a), self.iterate(b)
                return len(xs) == len(ys) and all(self.contains(b, x) and self.eq(self.dget(a, x, None), self.dget(b, x, None)) for x in xs)
            if isinstance(a, (PSet, PDict)) and type(a) is type(b):
                if len(a.items_) != len(b.items_):
                    return False
            if type(a) is not type(b):
                return False
            return self.choose(("same", self.fresh("o"))) if not isinstance(a, Inst) else False
        return a == b

    def enumerable(self, c):
        if isinstance(c, (PSet, PDict)):
            return not any(isinstance(x, Each) for x in c.items_)
        return c.gen is not None and getattr(c, "closed", lambda: False)()

    def truth(self, v):
        if isinstance(v, Alg):
            try:
                return v.sign() != 0
            except Undecided as e:
                raise Unsupported(str(e))
        if v is UNK or isinstance(v, (Expr,)):
            return self.choose(("unknown condition", self.fresh("t")))
        if isinstance(v, Lin):
            return self.choose(("nonzero", repr(v)))
        if isinstance(v, Sym):
            return self.choose(("true", v.name))
        if isinstance(v, Inst):
            for m in ("__bool__", "__len__"):
                if self.find(v.cls, m):
                    return self.truth(self.call_value(self.attr(v, m, None), [], {}, None))
            return True
        if isinstance(v, (PDict, PSet)):
            return bool(v.items_)
        if isinstance(v, (AbsDict, AbsSet)):
            return self.choose(("nonempty", v.name))
        if isinstance(v, (Fn, ClassRef, Native, Mod, BType)):
            return True
        if isinstance(v, Seq) and not v.once:
            return self.truth(v.src) if isinstance(v.src, (AbsDict, AbsSet)) else bool(v.items)
        return bool(v)

    # -------------------------------------------------------------- containers
    def contains(self, c, k, node=None):
        if c is UNK:
            return self.choose(("unknown membership", self.fresh("m")))
        if isinstance(c, AbsDict):
            for kk, v in reversed(c.over):
                if self.eq(kk, k):
                    return v is not DEL
            return c.has(self, k)
        if isinstance(c, AbsSet):
            for kk, v in reversed(c.over):
                if self.eq(kk, k):
                    return v
            return c.has(self, k)
        if isinstance(c, PDict):
            return any(self.eq(kk, k) for kk, _ in c.items_)
        if isinstance(c, PSet):
            return any(self.eq(x, k) for x in c.items_)
        if isinstance(c, (list, tuple)):
            return any(self.eq(x, k) for x in c)
        if isinstance(c, str) and isinstance(k, str):
            return k in c
        if isinstance(c, range) and isinstance(k, int):
            return k in c
        if isinstance(c, Inst):
            if self.find(c.cls, "__contains__"):
                return self.truth(self.call_value(self.attr(c, "__contains__", node), [k], {}, node))
            if self.is_mapping(c.cls):
                try:
                    self.call_value(self.attr(c, "__getitem__", node), [k], {}, node)
                    return True
                except PyRaise as e:
                    if e.name == "KeyError":
                        return False
                    raise
            if "contains:" + c.cls in self.hooks:
                return self.hooks["contains:" + c.cls](self, c, k)
            if self.find(c.cls, "__iter__"):
                it = self.call_value(self.attr(c, "__iter__", node), [], {}, node)
                return self.contains_iter(it, k, node)
            raise Unsupported("membership in %r" % c)
        if isinstance(c, Seq):
            return self.contains_iter(c, k, node)
        if isinstance(c, Sym) or c is None:
            raise PyRaise("TypeError", "not a container", node)
        raise Unsupported("membership in %r" % (c,))

    def contains_iter(self, it, k, node):
        if isinstance(it, (AbsSet, AbsDict, PSet, PDict)):
            return self.contains(it, k, node)
        src = getattr(it, "src", None)
        if src is not None:
            return self.contains(src, k, node)
        return any(self.eq(unwrap(x), k) for x in self.iterate(it, node))

    def is_mapping(self, cq):
        for c in self.mro(cq):
            n = self.pkg.classes.get(c)
            if n is not None and any("Mapping" in ast.dump(b) for b in n.bases):
                return True
        return False

    def dget(self, d, k, node):
        """value at a key, KeyError when absent"""
        if isinstance(d, AbsDict):
            for kk, v in reversed(d.over):
                if self.eq(kk, k):
                    if v is DEL:
                        raise PyRaise("KeyError", "%r is not in %s" % (k, d.name), node)
                    return v
            if not d.has(self, k):
                raise PyRaise("KeyError", "%r is not in %s" % (k, d.name), node)
            for kk, v in d.cache:
                if self.eq(kk, k):
                    return v
            v = d.get0(self, k)
            d.cache.append((k, v))
            return v
        for kk, v in d.items_:
            if self.eq(kk, k):
                return v
        if isinstance(d, DefDict):
            if d.count:
                return 0
            if d.factory is not None:
                v = self.call_value(d.factory, [], {}, node)
                d.items_.append((k, v))
                return v
        raise PyRaise("KeyError", repr(k), node)

    def counted(self, d, src, sign, node):
        """adds the elements of an iterable or the counts of a mapping to a Counter"""
        pairs = ([(self.plain(k), self.dget(src, self.plain(k), node)) for k in self.iterate(src, node)] if self.mapping(src)
                 else [(self.plain(x), 1) for x in self.iterate(src, node)])
        for k, n in pairs:
            old = self.dget(d, k, node)
            self.dset(d, k, self.binop(ast.Add() if sign > 0 else ast.Sub(), old, n, node))

    def mapping(self, o):
        return isinstance(o, (PDict, AbsDict))

    def dset(self, d, k, v):
        if isinstance(d, AbsDict):
            d.over = [(a, b) for a, b in d.over if not self.eq(a, k)] + [(k, v)]
        else:
            for i, (kk, _) in enumerate(d.items_):
                if self.eq(kk, k):
                    d.items_[i] = (kk, v)
                    return
            d.items_.append((k, v))

    def ddel(self, d, k, node):
        if not self.contains(d, k):
            raise PyRaise("KeyError", "%r is not in %s" % (k, getattr(d, "name", "dict")), node)
        if isinstance(d, AbsDict):
            d.over = [(a, b) for a, b in d.over if not self.eq(a, k)] + [(k, DEL)]
        else:
            d.items_ = [(a, b) for a, b in d.items_ if not self.eq(a, k)]

    def sadd(self, s, k, v=True):
        if isinstance(s, AbsSet):
            s.over = [(a, b) for a, b in s.over if not self.eq(a, k)] + [(k, v)]
        elif v:
            if not any(self.eq(x, k) for x in s.items_):
                s.items_.append(k)
        else:
            s.items_ = [x for x in s.items_ if not self.eq(x, k)]

    def length(self, c, node=None):
        if isinstance(c, (list, tuple, str, range)):
            if any(isinstance(x, Each) for x in c) if isinstance(c, (list, tuple)) else False:
                return Expr("count", tuple(c))
            return len(c)
        if isinstance(c, PDict) or isinstance(c, PSet):
            if any(isinstance(x, Each) for x in c.items_):
                return Expr("count", tuple(c.items_))
            return len(c.items_)
        if isinstance(c, (AbsDict, AbsSet)):
            n = 0
            if c.gen is not None and getattr(c, "closed", lambda: False)():
                return len(self.iterate(c, node))
            for kk, v in c.over:
                was = c.has(self, kk)
                now = v is not DEL if isinstance(c, AbsDict) else v
                n += int(now) - int(was)
            return Lin("len(%s)" % c.name, n)
        if isinstance(c, Inst):
            m = self.find(c.cls, "__len__")
            if m:
                return self.call_value(self.attr(c, "__len__", node), [], {}, node)
        if isinstance(c, Seq):
            if c.once:
                raise PyRaise("TypeError", "an iterator has no length", node)
            return self.length(list(c.items), node)
        if c is UNK:
            return UNK
        if isinstance(c, (int, float, Sym, Lin)) or c is None:
            raise PyRaise("TypeError", "no length", node)
        raise Unsupported("len of %r" % (c,))

    def iterate(self, c, node=None):
        """list of elements; an element of a container known only through facts
        is one arbitrary element standing for all (class Each)"""
        if isinstance(c, (list, tuple)):
            return list(c)
        if isinstance(c, range):
            return list(c)
        if isinstance(c, Seq):
            return c.take()
        if isinstance(c, Counter):
            raise Unsupported("walking an endless iterator")
        if isinstance(c, str):
            return list(c)
        if isinstance(c, PDict):
            return [k for k, _ in c.items_]
        if isinstance(c, PSet):
            return list(c.items_)
        if isinstance(c, (AbsDict, AbsSet)):
            if c.gen is None:
                raise Unsupported("iteration over %s" % c.name)
            g, named = c.gen(self)
            r = [] if g is None else [Each(c, g)]
            gone = [k for k, v in c.over if v is DEL or v is False]
            r += [k for k in named if c.has(self, k) and not any(self.eq(k, z) for z in gone)]
            r += [k for k, v in c.over if v is not DEL and v is not False and not any(self.eq(k, z) for z in named)
                  and not c.has(self, k)]
            r += [k for k, v in c.over if v is not DEL and v is not False and any(self.eq(k, z) for z in named)
                  and not c.has(self, k)]
            return r
        if isinstance(c, Inst):
            if self.find(c.cls, "__iter__"):
                it = self.call_value(self.attr(c, "__iter__", node), [], {}, node)
                if it is c:
                    raise Unsupported("self iterator")
                return self.iterate(it, node)
        if c is UNK:
            if self.choose(("unknown iteration", self.fresh("i"))):
                return [UNK]
            return []
        if isinstance(c, (Sym, Lin, int, float, bool)) or c is None:
            raise PyRaise("TypeError", "not iterable", node)
        raise Unsupported("iteration over %r" % (c,))

    def walk(self, c, node=None):
        """the elements one after the other; what is not taken from an iterator stays in it"""
        if isinstance(c, Counter):
            for n in range(40):
                yield c.step()
            raise Unsupported("walking an endless iterator")
        if isinstance(c, Seq) and c.once:
            while c.items:
                yield c.items.pop(0)
            return
        for x in self.iterate(c, node):
            yield x

    # ---------------------------------------------------------------- classes
    def mro(self, cq):
        if cq in self._mro:
            return self._mro[cq]
        r = [cq]
        n = self.pkg.classes.get(cq)
        if n is not None:
            m = cq.rpartition(".")[0]
            for b in n.bases:
                if isinstance(b, (ast.Name, ast.Attribute)):
                    q = self.resolve_global(m, b.id) if isinstance(b, ast.Name) else self.class_of(m, b)
                    if isinstance(q, ClassRef):
                        r += [x for x in self.mro(q.q) if x not in r]
        self._mro[cq] = r
        return r

    def class_of(self, mod, e):
        try:
            return self.ev(e, {}, mod)
        except (Unsupported, PyRaise):
            return None

    def find(self, cq, name):
        for c in self.mro(cq):
            n = self.pkg.functions.get(c + "." + name)
            if n is not None:
                return n, c
            cn = self.pkg.classes.get(c)
            if cn is not None:
                for s in cn.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                        return s.value, c
            if (c, name) in self.props:
                return self.props[(c, name)], c
        return None

    def resolve_global(self, modname, name, seen=()):
        if not seen:
            k = (modname, name)
            if k not in self._globals:
                r = self._resolve_global(modname, name)
                if r is not None and not isinstance(r, (Fn, ClassRef, Mod, Native)):
                    return r          # a fresh object for every use
                self._globals[k] = r
            return self._globals[k]
        return self._resolve_global(modname, name, seen)

    def _resolve_global(self, modname, name, seen=()):
        if (modname, name) in seen:
            return None
        m = self.pkg.modules.get(modname)
        if m is None:
            return None
        if modname + "." + name in self.pkg.classes:
            return ClassRef(modname + "." + name)
        if modname + "." + name in self.pkg.functions:
            return Fn(self.pkg.functions[modname + "." + name], modname)
        if modname not in self._imports:
            self._imports[modname] = ([s for s in ast.walk(m.tree) if isinstance(s, (ast.Import, ast.ImportFrom))],
                                      {t.id: s for s in m.tree.body if isinstance(s, ast.Assign)
                                       for t in s.targets if isinstance(t, ast.Name)})
        imports, assigns = self._imports[modname]
        for s in imports:
            if isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    p = m.package.split(".")
                    p = p[:len(p) - (s.level - 1)]
                    base = ".".join(p + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*" and base in self.pkg.modules:
                        r = self.resolve_global(base, name, seen + ((modname, name),))
                        if r is not None:
                            return r
                    elif (a.asname or a.name) == name:
                        if base + "." + a.name in self.pkg.modules:
                            return Mod(base + "." + a.name)
                        if base in self.pkg.modules:
                            return self.resolve_global(base, a.name, seen + ((modname, name),))
                        return Native(None, base + "." + a.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        return Mod(a.name if a.asname else a.name.split(".")[0])
        if name in assigns:
            return self.ev(assigns[name].value, {}, modname)
        for t in m.tree.body:
            # try: name / except NameError: name = value
            if isinstance(t, ast.Try) and len(t.body) == 1 and isinstance(t.body[0], ast.Expr) and \
                    isinstance(t.body[0].value, ast.Name) and t.body[0].value.id == name and not _builtin(name):
                for h in t.handlers:
                    for s in h.body:
                        if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
                            return self.ev(s.value, {}, modname)
        return None

    # ------------------------------------------------------------- attributes
    def attr(self, o, name, node):
        if isinstance(o, SuperRef):
            chain = self.mro(o.obj.cls)
            for c in chain[chain.index(o.after) + 1 if o.after in chain else 1:]:
                n = self.pkg.functions.get(c + "." + name)
                if n is not None:
                    return Fn(n, c.rpartition(".")[0], None, o.obj, c)
            return Native(None, "super." + name)
        if isinstance(o, Inst):
            h = self.hooks.get(("attr", o.cls, name))
            if h:
                return h(self, o)
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return ClassRef(o.cls)
            f = self.find(o.cls, name)
            if f is None:
                if self.is_mapping(o.cls) and name in ("keys", "get", "values", "items", "setdefault", "update", "pop"):
                    return Native(lambda args, kw: self.mixin(o, name, args, kw, node), name)
                raise PyRaise("AttributeError", "%r has no attribute %s" % (o, name), node)
            n, c = f
            if isinstance(n, tuple):            # property(...)
                mod = c.rpartition(".")[0]
                return self.call_value(self.ev(n[0], {}, n[1]), [o], {}, node)
            if isinstance(n, ast.FunctionDef):
                deco = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
                if "property" in deco:
                    return self.call_fn(Fn(n, c.rpartition(".")[0], None, o, c), [], {}, node)
                if "staticmethod" in deco:
                    return Fn(n, c.rpartition(".")[0], None, None, c)
                if "classmethod" in deco:
                    return Fn(n, c.rpartition(".")[0], None, ClassRef(o.cls), c)
                if n.decorator_list:
                    raise Unsupported("decorated method " + name)
                return Fn(n, c.rpartition(".")[0], None, o, c)
            return self.ev(n, {}, c.rpartition(".")[0])
        if isinstance(o, ClassRef):
            f = self.find(o.q, name)
            if f is None:
                if name == "__name__":
                    return o.q.rpartition(".")[2]
                raise PyRaise("AttributeError", "%r has no attribute %s" % (o, name), node)
            n, c = f
            if isinstance(n, ast.FunctionDef):
                deco = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
                if "classmethod" in deco:
                    return Fn(n, c.rpartition(".")[0], None, o, c)
                if n.decorator_list and deco != ["staticmethod"]:
                    raise Unsupported("decorated method " + name)
                return Fn(n, c.rpartition(".")[0], None, None, c)
            if isinstance(n, tuple):
                return UNK
            return self.ev(n, {}, c.rpartition(".")[0])
        if isinstance(o, Mod):
            if o.name in self.pkg.modules:
                r = self.resolve_global(o.name, name)
                if r is None and ("native", o.name + "." + name) in self.hooks:
                    return Native(None, o.name + "." + name)
                if r is None:
                    if o.name + "." + name in self.pkg.modules:
                        return Mod(o.name + "." + name)
                    raise PyRaise("AttributeError", "module %s has no attribute %s" % (o.name, name), node)
                return r
            if ("constant", o.name + "." + name) in self.hooks:
                return self.hooks["constant", o.name + "." + name]
            return Native(None, o.name + "." + name)
        if name == "__class__":
            return self.type_of(o)
        if isinstance(o, (PDict, PSet, AbsDict, AbsSet, list, tuple, str, Seq)):
            return Native(lambda args, kw, o=o, name=name, node=node: self.method(o, name, args, kw, node), name)
        if isinstance(o, BType):
            if name == "__name__":
                return o.name
            if o.name == "dict" and name == "fromkeys":
                def fromkeys(args, kw, node=node):
                    d = PDict()
                    for x in self.iterate(args[0], node):
                        if isinstance(x, Each):
                            raise Unsupported("fromkeys of an unknown container")
                        self.dset(d, x, args[1] if len(args) > 1 else None)
                    return d
                return Native(fromkeys, name)
            if o.name in ("dict", "set", "frozenset", "list", "tuple") and not name.startswith("__"):
                return Native(lambda args, kw, name=name, node=node: self.method(args[0], name, args[1:], kw, node), name)
        if o is UNK:
            return UNK
        if isinstance(o, Native) and o.f is None:
            return Native(None, o.name + "." + name)
        if o is None:
            raise PyRaise("AttributeError", "None has no attribute %s" % name, node)
        if isinstance(o, (Sym, Lin, Expr)):
            return UNK
        raise Unsupported("attribute %s of %r" % (name, o))

    def mixin(self, o, name, args, kw, node):
        """methods that a mapping class inherits from collections.abc"""
        if name in ("keys", "values", "items") and not args:
            ks = self.iterate(o, node)
            if any(isinstance(k, Each) for k in ks):
                return UNK
            return ks if name == "keys" else [self.item(o, k, node) if name == "values" else (k, self.item(o, k, node)) for k in ks]
        if name == "get" and args and not kw:
            try:
                return self.item(o, args[0], node)
            except PyRaise as e:
                if e.name != "KeyError":
                    raise
                return args[1] if len(args) > 1 else None
        return UNK

    def type_of(self, v):
        if isinstance(v, Inst):
            return ClassRef(v.cls)
        for t, n in ((bool, "bool"), (int, "int"), (float, "float"), (str, "str"), (tuple, "tuple"), (list, "list"), (slice, "slice")):
            if isinstance(v, t):
                return BType(n)
        if isinstance(v, Alg):
            return BType("float")
        if isinstance(v, (PDict, AbsDict)):
            return BType("dict")
        if isinstance(v, (PSet, AbsSet)):
            return BType("set")
        if v is None:
            return BType("NoneType")
        if isinstance(v, Sym):
            return BType("type of a name")
        if isinstance(v, (Lin,)):
            return BType("int")
        if isinstance(v, Seq):
            return BType("iterator")
        if isinstance(v, (Fn, Native)):
            return BType("function")
        return UNK

    def isinstance_(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(v, x) for x in t)
        if isinstance(t, PSet):
            raise Unsupported("isinstance")
        if v is UNK:
            return self.choose(("unknown type", self.fresh("t")))
        if isinstance(t, ClassRef):
            return isinstance(v, Inst) and t.q in self.mro(v.cls)
        if isinstance(t, BType):
            ty = self.type_of(v)
            if ty is UNK:
                return self.choose(("unknown type", self.fresh("t")))
            return ty == t or (t.name == "int" and ty == BType("bool")) or t.name == "object"
        if isinstance(t, Native) and t.f is None and t.name in ABCS and v is not UNK:
            kinds = ABCS[t.name]
            ty = self.type_of(v)
            if isinstance(v, Inst):
                if kinds == "Mapping":
                    return self.is_mapping(v.cls)
                dunder = {"Iterable": "__iter__", "Sized": "__len__", "Container": "__contains__", "Hashable": "__hash__"}.get(kinds)
                if dunder is None:
                    raise Unsupported("isinstance of " + t.name)
                return self.find(v.cls, dunder) is not None
            names = {"Mapping": ("dict",), "Sequence": ("list", "tuple", "str"), "Set": ("set",), "Iterator": ("iterator",),
                     "Iterable": ("list", "tuple", "str", "dict", "set", "iterator"), "Sized": ("list", "tuple", "str", "dict", "set"),
                     "Container": ("list", "tuple", "str", "dict", "set")}.get(kinds)
            if names and isinstance(ty, BType) and not isinstance(v, Deque):
                return ty.name in names or isinstance(v, range) and kinds != "Set" and kinds != "Mapping" and kinds != "Iterator"
        if isinstance(t, Native) and t.f is None and t.name.startswith(("collections", "numbers", "typing", "types")):
            raise Unsupported("isinstance of " + t.name)
        if isinstance(v, (Inst, Sym, tuple, list, PDict, PSet, AbsDict, AbsSet)) or v is None:
            return False
        return self.choose(("unknown type", self.fresh("t")))

    def method(self, o, name, args, kw, node):
        if isinstance(o, (PDict, AbsDict)):
            if name in ("get", "pop", "setdefault"):
                if self.contains(o, args[0]):
                    v = self.dget(o, args[0], node)
                    if name == "pop":
                        self.ddel(o, args[0], node)
                    return v
                d = args[1] if len(args) > 1 else None
                if name == "setdefault":
                    self.dset(o, args[0], d)
                if name == "pop" and len(args) < 2:
                    raise PyRaise("KeyError", repr(args[0]), node)
                return d
            if name in ("keys", "__iter__"):
                return Seq(self.iterate(o, node), o, name != "keys")
            if name in ("values", "items"):
                ks = self.iterate(o, node)
                r = []
                for k in ks:
                    e = unwrap(k)
                    v = self.dget(o, e, node)
                    x = v if name == "values" else (e, v)
                    r.append(Each(k.src, x) if isinstance(k, Each) else x)
                return Seq(r, None)
            if name == "__contains__":
                return self.contains(o, args[0])
            if name == "__getitem__":
                return self.dget(o, args[0], node)
            if name == "__setitem__":
                self.dset(o, args[0], args[1]); return None
            if name == "__delitem__":
                self.ddel(o, args[0], node); return None
            if name == "__len__":
                return self.length(o)
            if name == "copy" and isinstance(o, DefDict):
                return DefDict(o.items_, o.factory, o.count)
            if name == "copy" and isinstance(o, PDict):
                return PDict(o.items_)
            if isinstance(o, DefDict) and o.count and name in ("update", "subtract"):
                for a in args:
                    self.counted(o, a, 1 if name == "update" else -1, node)
                if kw:
                    raise Unsupported("options of a Counter")
                return None
            if isinstance(o, DefDict) and o.count and name == "elements":
                if not all(isinstance(v, int) for _, v in o.items_):
                    raise Unsupported("elements")
                return Seq([k for k, v in o.items_ for _ in range(v)], None, True)
            if isinstance(o, DefDict) and o.count and name in ("most_common", "total"):
                raise Unsupported(name)
            if name == "update":
                for a in args:
                    if isinstance(a, (PDict, AbsDict)):
                        for k in self.iterate(a, node):
                            self.dset(o, self.plain(k), self.dget(a, self.plain(k), node))
                    else:
                        for x in self.iterate(a, node):
                            k, v = self.plain(x)
                            self.dset(o, k, v)
                for k, v in kw.items():
                    self.dset(o, k, v)
                return None
            if name == "clear" and isinstance(o, PDict):
                o.items_ = []
                return None
            if name == "popitem" and isinstance(o, PDict) and o.items_:
                return o.items_.pop()
        if isinstance(o, (PSet, AbsSet)):
            if name == "add":
                self.sadd(o, args[0]); return None
            if name in ("discard", "remove"):
                if name == "remove" and not self.contains(o, args[0]):
                    raise PyRaise("KeyError", repr(args[0]), node)
                self.sadd(o, args[0], False); return None
            if name == "__contains__":
                return self.contains(o, args[0])
            if name == "__iter__":
                return Seq(self.iterate(o, node), o, True)
            if name == "__len__":
                return self.length(o)
            if name == "update":
                for a in args:
                    for x in self.iterate(a, node):
                        self.sadd(o, unwrap(x))
                return None
            if name in SETOPS:
                r = o
                for a in args:
                    r = self.setop(SETOPS[name], r, a, node)
                return r if r is not o else self.method(o, "copy", [], {}, node)
            if name in ("difference_update", "intersection_update", "symmetric_difference_update"):
                for a in args:
                    self.setinto(o, SETOPS[name[:-7]], a, node)
                return None
            if name in ("issubset", "issuperset", "isdisjoint"):
                other = args[0]
                if name == "issubset":
                    return self.subset(o, other, node)
                if name == "issuperset":
                    return all(self.contains(o, unwrap(x)) for x in self.iterate(other, node))
                return not any(self.contains(o, unwrap(x)) for x in self.iterate(other, node))
            if name == "clear" and isinstance(o, PSet):
                o.items_ = []
                return None
            if name == "pop" and isinstance(o, PSet) and not any(isinstance(x, Each) for x in o.items_):
                if not o.items_:
                    raise PyRaise("KeyError", "pop from an empty set", node)
                i = 0
                while i < len(o.items_) - 1 and not self.pop_first and not self.choose(("popped", self.fresh("p"), i)):
                    i += 1
                return o.items_.pop(i)
            if name == "copy" and isinstance(o, PSet):
                return PSet(o.items_)
            if name == "copy":
                c = AbsSet(o.name, o.has, o.gen); c.over = list(o.over); c.closed = getattr(o, "closed", lambda: False); return c
        if isinstance(o, (list, tuple)):
            if name == "append":
                o.append(args[0]); return None
            if name == "extend":
                o.extend(self.iterate(args[0], node)); return None
            if isinstance(o, Deque) and name == "popleft":
                if not o:
                    raise PyRaise("IndexError", "pop from an empty deque", node)
                return o.pop(0)
            if isinstance(o, Deque) and name == "appendleft":
                o.insert(0, args[0]); return None
            if isinstance(o, Deque) and name == "extendleft":
                for x in self.iterate(args[0], node):
                    o.insert(0, x)
                return None
            if isinstance(o, Deque) and name not in ("append", "pop", "clear", "__len__", "__iter__", "__contains__", "remove", "count", "index", "reverse"):
                raise Unsupported("method %s of a deque" % name)
            if name == "insert" and isinstance(args[0], int):
                o.insert(args[0], args[1]); return None
            if name == "index":
                for i, x in enumerate(o):
                    if self.eq(x, args[0]):
                        return i
                raise PyRaise("ValueError", "", node)
            if name == "pop" and isinstance(o, list) and all(isinstance(a, int) for a in args):
                if not o or args and not -len(o) <= args[0] < len(o):
                    raise PyRaise("IndexError", "pop from a list", node)
                return o.pop(*args)
            if name == "count":
                return sum(1 for x in o if self.eq(x, args[0]))
            if name == "copy":
                return list(o)
            if name == "reverse":
                o.reverse(); return None
            if name == "sort":
                o[:] = self.sort(o, kw.get("key"), self.truth(kw.get("reverse", False)), node); return None
            if name == "remove":
                for i, x in enumerate(o):
                    if self.eq(x, args[0]):
                        del o[i]
                        return None
                raise PyRaise("ValueError", "", node)
            if name == "__len__":
                return self.length(o)
            if name == "__contains__":
                return self.contains(o, args[0])
            if name == "__iter__":
                return Seq(list(o), None, True)
            if name == "clear" and isinstance(o, list):
                del o[:]
                return None
        if isinstance(o, Seq):
            if name == "__iter__":
                return o if o.once else Seq(o.items, o.src, True)
            if name == "__next__" or name == "send" and args == [None] and o.once:
                return self.native("builtins.next", [o], {}, node)
            if name == "__contains__":
                return self.contains(o, args[0])
        if isinstance(o, str):
            if name == "join":
                self.iterate(args[0], node)
            if all(isinstance(a, (str, int)) for a in args) and not kw and name in ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "split", "replace"):
                return getattr(o, name)(*args)
            return UNK
        raise Unsupported("method %s of %r" % (name, o))

    def plain(self, x):
        """an element that is not one arbitrary one of many"""
        if isinstance(x, Each):
            raise Unsupported("arbitrary elements of an unknown container")
        return x

    # -------------------------------------------------------------------- sets
    def setop(self, op, a, b, node):
        r = PSet()
        if op is ast.BitOr:
            for c in (a, b):
                for x in self.iterate(c, node):
                    if isinstance(x, Each):
                        r.items_.append(x)
                    else:
                        self.sadd(r, x)
            return r
        xs = self.iterate(a, node)
        if isinstance(b, (Seq, list, tuple)):
            t = PSet()
            for x in self.iterate(b, node):
                t.items_.append(self.plain(x))
            b = t
        if op is ast.BitXor:
            ys = [self.plain(y) for y in self.iterate(b, node)]
            for y in ys:
                if not any(self.eq(self.plain(x), y) for x in xs):
                    self.sadd(r, y)
        for x in xs:
            if self.contains(b, unwrap(x)) == (op is ast.BitAnd):
                if isinstance(x, Each):
                    r.items_.append(x)
                else:
                    self.sadd(r, x)
        return r

    def setinto(self, o, op, a, node):
        r = self.setop(op, o, a, node)
        keep = [self.plain(x) for x in r.items_]
        for x in self.iterate(o, node):
            if not any(self.eq(self.plain(x), y) for y in keep):
                self.sadd(o, x, False)
        for y in keep:
            self.sadd(o, y)

    def subset(self, a, b, node):
        if isinstance(b, Seq):
            t = PSet()
            for x in self.iterate(b, node):
                t.items_.append(self.plain(x))
            b = t
        return all(self.contains(b, unwrap(x)) for x in self.iterate(a, node))

    # -------------------------------------------------------------- statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too many steps")
        t = type(s).__name__
        if t == "Expr":
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, ast.Yield):
                env["$yield"].append(self.ev(s.value.value, env, mod) if s.value.value else None)
                return
            if isinstance(s.value, ast.YieldFrom):
                env["$yield"].extend(self.iterate(self.ev(s.value.value, env, mod), s))
                return
            self.ev(s.value, env, mod)
        elif t == "Assign":
            v = self.ev(s.value, env, mod)
            for x in s.targets:
                self.assign(x, v, env, mod)
        elif t == "AnnAssign":
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, mod), env, mod)
        elif t == "AugAssign":
            cur = self.ev(_load(s.target), env, mod)
            v = self.ev(s.value, env, mod)
            if isinstance(s.op, ast.Add) and isinstance(cur, list):
                cur.extend(self.iterate(v, s)); r = cur
            elif isinstance(s.op, ast.BitOr) and isinstance(cur, (PSet, AbsSet)):
                for x in self.iterate(v, s):
                    self.sadd(cur, unwrap(x))
                r = cur
            elif isinstance(s.op, (ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(cur, (PSet, AbsSet)):
                self.setinto(cur, type(s.op), v, s)
                r = cur
            elif isinstance(s.op, ast.BitOr) and isinstance(cur, (PDict, AbsDict)):
                self.method(cur, "update", [v], {}, s)
                r = cur
            elif isinstance(s.op, ast.Mult) and isinstance(cur, list) and isinstance(v, int):
                cur *= v
                r = cur
            else:
                r = self.binop(s.op, cur, v, s)
            self.assign(s.target, r, env, mod)
        elif t == "Return":
            raise _Return(self.ev(s.value, env, mod) if s.value is not None else None)
        elif t == "If":
            if self.truth(self.ev(s.test, env, mod)):
                self.block(s.body, env, mod)
            else:
                self.block(s.orelse, env, mod)
        elif t == "For":
            broke = False
            for x in self.walk(self.ev(s.iter, env, mod), s):
                each = isinstance(x, Each)
                self.assign(s.target, unwrap(x), env, mod)
                ys = env.get("$yield")
                n0 = len(ys) if ys is not None else 0
                try:
                    self.block(s.body, env, mod)
                except _Continue:
                    pass
                except _Break:
                    broke = True
                    break
                finally:
                    if each and ys is not None:
                        for i in range(n0, len(ys)):
                            if not isinstance(ys[i], Each):
                                ys[i] = Each(x.src, ys[i])
            if not broke:
                self.block(s.orelse, env, mod)
        elif t == "While":
            n = 0
            while self.truth(self.ev(s.test, env, mod)):
                n += 1
                if n > 60:
                    raise Unsupported("while loop")
                try:
                    self.block(s.body, env, mod)
                except _Continue:
                    pass
                except _Break:
                    return
            self.block(s.orelse, env, mod)
        elif t == "Break":
            raise _Break()
        elif t == "Continue":
            raise _Continue()
        elif t == "Global":
            raise Unsupported("global")
        elif t == "Pass" or t in ("Import", "ImportFrom", "Nonlocal"):
            if t in ("Import", "ImportFrom"):
                for a in s.names:
                    nm = a.asname or a.name.split(".")[0]
                    r = self.resolve_global(mod, nm) if mod else None
                    if r is not None:
                        env[nm] = r
                    elif t == "Import":
                        env[nm] = Mod(a.name if a.asname else a.name.split(".")[0])
                    else:
                        env[nm] = Native(None, (s.module or "") + "." + a.name)
            elif t == "Nonlocal":
                env.setdefault("$nonlocal", set()).update(s.names)
        elif t == "Assert":
            v = self.ev(s.test, env, mod)
            if not self.truth(v):
                raise PyRaise("AssertionError", "assertion", s)
        elif t == "Raise":
            if s.exc is None:
                raise PyRaise("Exception", "re-raised", s)
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise PyRaise(e.id if isinstance(e, ast.Name) else "Exception", "raised", s)
        elif t == "Delete":
            for x in s.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
                elif isinstance(x, ast.Subscript):
                    o = self.ev(x.value, env, mod)
                    k = self.ev(x.slice, env, mod)
                    self.delitem(o, k, s)
                else:
                    raise Unsupported("del")
        elif t == "Try":
            try:
                try:
                    self.block(s.body, env, mod)
                except PyRaise as e:
                    for h in s.handlers:
                        if self.matches(e, h.type):
                            if h.name:
                                env[h.name] = UNK
                            self.block(h.body, env, mod)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env, mod)
            finally:
                self.block(s.finalbody, env, mod)
        elif t == "FunctionDef":
            if s.decorator_list:
                raise Unsupported("decorated function " + s.name)
            env[s.name] = Fn(s, mod, env)
        elif t == "With":
            raise Unsupported("with")
        else:
            raise Unsupported(t)

    def matches(self, e, ty):
        if ty is None:
            return True
        names = [x.id if isinstance(x, ast.Name) else x.attr for x in (ty.elts if isinstance(ty, ast.Tuple) else [ty]) if isinstance(x, (ast.Name, ast.Attribute))]
        return any(n == e.name or n in ("Exception", "BaseException") or n in EXC_PARENTS.get(e.name, ()) for n in names)

    def delitem(self, o, k, node):
        if isinstance(o, (PDict, AbsDict)):
            self.ddel(o, k, node)
        elif isinstance(o, list) and isinstance(k, int):
            del o[k]
        elif isinstance(o, Inst):
            self.call_value(self.attr(o, "__delitem__", node), [k], {}, node)
        else:
            raise Unsupported("del item of %r" % (o,))

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            if t.id in env.get("$nonlocal", ()):
                e = env.get("$parent")
                while e is not None:
                    if t.id in e:
                        e[t.id] = v
                        return
                    e = e.get("$parent")
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v is UNK:
                vs = [UNK] * len(t.elts)
            else:
                vs = [unwrap(x) for x in self.iterate(v, t)]
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                n = len(t.elts) - 1
                if len(vs) < n:
                    raise PyRaise("ValueError", "unpack", t)
                k = len(vs) - n
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, env, mod)
                self.assign(t.elts[i].value, list(vs[i:i + k]), env, mod)
                for x, y in zip(t.elts[i + 1:], vs[i + k:]):
                    self.assign(x, y, env, mod)
                return
            if len(vs) != len(t.elts):
                raise PyRaise("ValueError", "unpack", t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if not isinstance(o, Inst):
                raise Unsupported("attribute store on %r" % (o,))
            if t.attr not in o.attrs:
                f = self.find(o.cls, t.attr)
                if f is not None and (isinstance(f[0], tuple) or getattr(f[0], "decorator_list", None)):
                    raise Unsupported("store through a property " + t.attr)
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev(t.slice, env, mod)
            self.setitem(o, k, v, t)
        else:
            raise Unsupported("assignment")

    def setitem(self, o, k, v, node):
        if isinstance(o, (PDict, AbsDict)):
            self.dset(o, k, v)
        elif isinstance(o, list):
            if isinstance(k, slice):
                o[k] = self.iterate(v, node)
            elif isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise PyRaise("IndexError", "", node)
                o[k] = v
            else:
                raise Unsupported("list store")
        elif isinstance(o, Inst):
            self.call_value(self.attr(o, "__setitem__", node), [k, v], {}, node)
        elif o is UNK:
            return
        else:
            raise Unsupported("item store on %r" % (o,))

    # ------------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("too many steps")
        t = type(e).__name__
        m = getattr(self, "x_" + t, None)
        if m is None:
            raise Unsupported(t)
        return m(e, env, mod)

    def x_Constant(self, e, env, mod):
        return e.value

    def x_Name(self, e, env, mod):
        n = e.id
        x = env
        while x is not None:
            if n in x:
                return x[n]
            x = x.get("$parent")
        r = self.resolve_global(mod, n) if mod else None
        if r is not None:
            return r
        if n in ("int", "float", "str", "bool", "tuple", "list", "dict", "set", "object", "frozenset", "slice"):
            return BType(n)
        if n in BUILTIN_EXC:
            return BType(n)
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        if n == "super":
            return Native(None, "super")
        import builtins
        if hasattr(builtins, n):
            return Native(None, "builtins." + n)
        # a name of the function that is not bound on this path, or an undefined global
        raise PyRaise("NameError", n, e)

    def x_Tuple(self, e, env, mod):
        return tuple(self.elts(e, env, mod))

    def x_List(self, e, env, mod):
        return self.elts(e, env, mod)

    def x_Set(self, e, env, mod):
        s = PSet()
        for x in self.elts(e, env, mod):
            self.sadd(s, x)
        return s

    def elts(self, e, env, mod):
        r = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r.extend(self.iterate(self.ev(x.value, env, mod), e))
            else:
                r.append(self.ev(x, env, mod))
        return r

    def x_Dict(self, e, env, mod):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, env, mod)
                if not self.mapping(m):
                    raise Unsupported("dict unpacking")
                self.method(d, "update", [m], {}, e)
                continue
            self.dset(d, self.ev(k, env, mod), self.ev(v, env, mod))
        return d

    def x_Attribute(self, e, env, mod):
        return self.attr(self.ev(e.value, env, mod), e.attr, e)

    def x_Subscript(self, e, env, mod):
        return self.item(self.ev(e.value, env, mod), self.ev(e.slice, env, mod), e)

    def item(self, o, k, node):
        if isinstance(o, (tuple, list, str, range)):
            if isinstance(k, slice):
                if any(isinstance(x, (Lin, Sym)) or x is UNK for x in (k.start, k.stop, k.step)):
                    return UNK
                return o[k]
            if isinstance(k, bool) or isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise PyRaise("IndexError", "index %d of %r" % (k, o), node)
                return o[k]
            if k is UNK or isinstance(k, (Lin, Expr)):
                return UNK
            raise PyRaise("TypeError", "index %r" % (k,), node)
        if isinstance(o, (PDict, AbsDict)):
            return self.dget(o, k, node)
        if isinstance(o, Inst):
            return self.call_value(self.attr(o, "__getitem__", node), [k], {}, node)
        if isinstance(o, Seq):
            raise PyRaise("TypeError", "an iterator is not subscriptable", node)
        if o is UNK or isinstance(o, (Native, Expr)):
            return UNK
        if isinstance(o, (AbsSet, PSet, Sym, Lin)) or o is None:
            raise PyRaise("TypeError", "%r is not subscriptable" % (o,), node)
        raise Unsupported("item of %r" % (o,))

    def x_Slice(self, e, env, mod):
        f = lambda x: None if x is None else self.ev(x, env, mod)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def x_Index(self, e, env, mod):
        return self.ev(e.value, env, mod)

    def x_BoolOp(self, e, env, mod):
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                return v if not (v is UNK) else t
        return v

    def x_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else v
        if isinstance(v, Alg) and isinstance(e.op, (ast.USub, ast.UAdd)):
            return v * -1 if isinstance(e.op, ast.USub) else v
        return UNK

    def x_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def x_BinOp(self, e, env, mod):
        return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod), e)

    def binop(self, op, a, b, node):
        num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool) or isinstance(x, bool)
        if num(a) and num(b):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                        ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                        ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b,
                        ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[type(op)]()
            except ZeroDivisionError:
                raise PyRaise("ZeroDivisionError", "", node)
            except TypeError:
                raise PyRaise("TypeError", "", node)
            except KeyError:
                return UNK
        if isinstance(a, Alg) or isinstance(b, Alg):
            return self.algop(op, a, b, node)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)) and num(b) and b == 0 and isinstance(a, (Sym, Lin, Expr)):
            raise PyRaise("ZeroDivisionError", "", node)
        sets = (PSet, AbsSet)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if any(isinstance(x, sets) for x in (a, b)) and all(isinstance(x, sets + (Seq, PDict, AbsDict)) for x in (a, b)):
                return self.setop(type(op), a, b, node)
            if isinstance(op, ast.BitOr) and isinstance(a, PDict) and isinstance(b, (PDict, AbsDict)):
                r = PDict(a.items_)
                self.method(r, "update", [b], {}, node)
                return r
        if isinstance(a, (Obj, list, tuple)) or isinstance(b, (Obj, list, tuple)):
            if isinstance(a, Inst) or isinstance(b, Inst):
                raise Unsupported("operator on %r" % (a if isinstance(a, Inst) else b,))
            if not (isinstance(op, (ast.Add, ast.Mult)) or isinstance(op, ast.Mod) and isinstance(a, str)) and not (a is UNK or b is UNK):
                raise PyRaise("TypeError", "operands %r and %r" % (a, b), node)
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, str) or isinstance(b, str):
                return UNK
            if isinstance(a, Lin) and isinstance(b, int):
                return Lin(a.base, a.k + b)
            if isinstance(b, Lin) and isinstance(a, int):
                return Lin(b.base, b.k + a)
            if isinstance(a, Sym) and a.kind == "int" and isinstance(b, int):
                return offset(a, b)
            if isinstance(b, Sym) and b.kind == "int" and isinstance(a, int):
                return offset(b, a)
            if num(a) and a == 0 and not (b is UNK):
                return b
            if num(b) and b == 0 and not (a is UNK):
                return a
            if isinstance(a, (Lin, Expr, Sym)) or isinstance(b, (Lin, Expr, Sym)):
                return Expr("+", *sorted(plus_terms(a) + plus_terms(b), key=repr))
        if isinstance(op, ast.Sub):
            if isinstance(a, Lin) and isinstance(b, int):
                return Lin(a.base, a.k - b)
            if isinstance(a, Sym) and a.kind == "int" and isinstance(b, int):
                return offset(a, -b)
            if all(isinstance(x, Sym) and x.kind == "int" for x in (a, b)) and base_of(a) == base_of(b):
                return base_off(a) - base_off(b)
            if isinstance(a, Lin) and isinstance(b, Lin) and a.base == b.base:
                return a.k - b.k
        if isinstance(op, ast.Mult):
            if isinstance(a, (tuple, list)) and isinstance(b, int):
                return a * b
            if isinstance(b, (tuple, list)) and isinstance(a, int):
                return b * a
            if (num(a) and a == 0) or (num(b) and b == 0):
                return 0
            if isinstance(a, (Sym, Lin, Expr)) or isinstance(b, (Sym, Lin, Expr)):
                return Expr("*", *sorted([a, b], key=repr))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return UNK
        return UNK

    def algop(self, op, a, b, node):
        if not all(isinstance(x, (Alg, int, float)) for x in (a, b)):
            if a is UNK or b is UNK:
                return UNK
            raise PyRaise("TypeError", "operands %r and %r" % (a, b), node)
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Div):
                return a / b
            if isinstance(op, ast.Pow) and isinstance(a, Alg) and isinstance(b, (int, float)):
                return a ** b
        except ZeroDivisionError:
            raise PyRaise("ZeroDivisionError", "", node)
        except Undecided as e:
            raise Unsupported(str(e))
        return UNK

    def x_Compare(self, e, env, mod):
        l = self.ev(e.left, env, mod)
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, env, mod)
            if isinstance(op, ast.Eq):
                v = self.eq(l, r)
            elif isinstance(op, ast.NotEq):
                v = not self.eq(l, r)
            elif isinstance(op, ast.In):
                v = self.contains(r, l, e)
            elif isinstance(op, ast.NotIn):
                v = not self.contains(r, l, e)
            elif isinstance(op, (ast.Is, ast.IsNot)):
                if l is None or r is None or isinstance(l, bool) or isinstance(r, bool):
                    v = (l is r) if not (l is UNK or r is UNK) else self.choose(("unknown identity", self.fresh("i")))
                elif isinstance(l, (ClassRef, BType)):
                    v = l == r
                elif isinstance(l, Sym) and isinstance(r, Sym):
                    v = self.eq(l, r)
                else:
                    v = l is r
                v = v if isinstance(op, ast.Is) else not v
            else:
                v = self.order(op, l, r)
            if not v:
                return False
            l = r
        return True

    def order(self, op, l, r):
        if isinstance(l, (int, float)) and isinstance(r, (int, float)) or isinstance(l, str) and isinstance(r, str):
            return {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r}[type(op)]
        if (isinstance(l, Alg) or isinstance(r, Alg)) and all(isinstance(x, (Alg, int, float)) for x in (l, r)):
            try:
                if Alg.same(l, r):
                    return isinstance(op, (ast.LtE, ast.GtE))
                return Alg.below(l, r) if isinstance(op, (ast.Lt, ast.LtE)) else Alg.below(r, l)
            except Undecided as e:
                raise Unsupported(str(e))
        if isinstance(l, Lin) and isinstance(r, Lin) and l.base == r.base:
            return self.order(op, l.k, r.k)
        if isinstance(l, Sym) and l.kind == "int" and isinstance(r, Sym) and r.kind == "int" and base_of(l) == base_of(r):
            return self.order(op, base_off(l), base_off(r))
        if isinstance(l, (tuple, list)) and isinstance(r, (tuple, list)):
            for a, b in zip(l, r):
                if not self.eq(a, b):
                    return self.order(op, a, b)
            return self.order(op, len(l), len(r))
        if l is UNK or r is UNK:
            return self.choose(("order", type(op).__name__, repr(l), repr(r)))
        sets = (PSet, AbsSet)
        if isinstance(l, sets) and isinstance(r, sets):
            if isinstance(op, (ast.Gt, ast.GtE)):
                l, r = r, l
            return self.subset(l, r, None) and (isinstance(op, (ast.LtE, ast.GtE)) or not self.subset(r, l, None))
        if isinstance(l, (Obj, Seq)) or isinstance(r, (Obj, Seq)):
            raise Unsupported("order of %r and %r" % (l, r))
        if l is None or r is None:
            raise PyRaise("TypeError", "values cannot be ordered")
        if self.eq(l, r):
            return isinstance(op, (ast.LtE, ast.GtE))
        for a, b, below in ((l, r, True), (r, l, False)):
            # a value of the unit interval against a number outside it
            if isinstance(a, Sym) and a.kind == "unit" and isinstance(b, (int, float)) and not 0 < b < 1:
                lt = (b >= 1) == below
                return lt if isinstance(op, (ast.Lt, ast.LtE)) else not lt
        lt = self.less(repr(l), repr(r))
        return lt if isinstance(op, (ast.Lt, ast.LtE)) else not lt

    def less(self, a, b):
        """a strict order of different values, consistent over the path"""
        if (v := self.facts.get(("less",) + tuple(sorted((a, b))))) is not None:
            return v if a < b else not v
        for x, y, v in ((a, b, True), (b, a, False)):
            todo, seen = [x], {x}
            while todo:
                z = todo.pop()
                for k, f in self.facts.items():
                    if k[0] == "less":
                        lo, hi = (k[1], k[2]) if f else (k[2], k[1])
                        if lo == z and hi not in seen:
                            if hi == y:
                                return v
                            seen.add(hi)
                            todo.append(hi)
        v = self.choose(("less",) + tuple(sorted((a, b))))
        return v if a < b else not v

    def sort(self, xs, key=None, reverse=False, node=None):
        """insertion sort of known values; a list with unknown elements keeps its order"""
        if any(isinstance(x, Each) or x is UNK for x in xs):
            return list(xs)
        ks = [x if key is None else self.call_value(key, [x], {}, node) for x in xs]
        if any(not self.orderable(k) for k in ks):
            return list(xs)
        out = []
        for k, x in zip(ks, xs):
            i = len(out)
            while i > 0 and self.order(ast.Lt(), *((k, out[i - 1][0]) if not reverse else (out[i - 1][0], k))):
                i -= 1
            out.insert(i, (k, x))
        return [x for _, x in out]

    def orderable(self, k):
        if isinstance(k, (tuple, list)):
            return all(self.orderable(x) for x in k)
        return isinstance(k, (int, float, str, Alg)) or isinstance(k, Sym) and not isinstance(k, Gen)

    def x_Lambda(self, e, env, mod):
        return Fn(e, mod, env)

    def x_JoinedStr(self, e, env, mod):
        return UNK

    def x_Starred(self, e, env, mod):
        raise Unsupported("starred")

    def x_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def comp(self, e, elt, env, mod):
        out = []

        def rec(i, en, each):
            if i == len(e.generators):
                v = elt(en)
                out.append(Each(each, v) if each is not None and not isinstance(v, Each) else v)
                return
            g = e.generators[i]
            for x in self.walk(self.ev(g.iter, en, mod), e):
                e2 = {"$parent": en}
                self.assign(g.target, unwrap(x), e2, mod)
                if all(self.truth(self.ev(c, e2, mod)) for c in g.ifs):
                    rec(i + 1, e2, x.src if isinstance(x, Each) else each)
        rec(0, {"$parent": env}, None)
        return out

    def x_ListComp(self, e, env, mod):
        return self.comp(e, lambda en: self.ev(e.elt, en, mod), env, mod)

    def x_GeneratorExp(self, e, env, mod):
        return Seq(self.comp(e, lambda en: self.ev(e.elt, en, mod), env, mod), None, True)

    def x_SetComp(self, e, env, mod):
        s = PSet()
        for x in self.comp(e, lambda en: self.ev(e.elt, en, mod), env, mod):
            if isinstance(x, Each):
                s.items_.append(x)
            else:
                self.sadd(s, x)
        return s

    def x_DictComp(self, e, env, mod):
        d = PDict()
        for k, v in map(unwrap, self.comp(e, lambda en: (self.ev(e.key, en, mod), self.ev(e.value, en, mod)), env, mod)):
            self.dset(d, k, v)
        return d

    # ------------------------------------------------------------------- calls
    def x_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            x = env
            while x is not None and "$self" not in x:
                x = x.get("$parent")
            return SuperRef(x["$self"], x["$class"]) if x else UNK
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2 and not e.keywords:
            c, o = (self.ev(a, env, mod) for a in e.args)
            return SuperRef(o, c.q) if isinstance(c, ClassRef) and isinstance(o, Inst) else UNK
        f = self.ev(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(unwrap(x) for x in self.iterate(self.ev(a.value, env, mod), e))
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                if not isinstance(d, PDict):
                    raise Unsupported("** argument")
                for kk, v in d.items_:
                    kw[kk] = v
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.call_value(f, args, kw, e)

    def call_value(self, f, args, kw, node):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node)
        if isinstance(f, ClassRef):
            h = self.hooks.get(("new", f.q))
            if h:
                return h(self, args, kw)
            o = Inst(f.q)
            init = self.find(f.q, "__init__")
            if init:
                self.call_fn(Fn(init[0], init[1].rpartition(".")[0], None, o, init[1]), args, kw, node)
            return o
        if isinstance(f, Native):
            if f.f is not None:
                return f.f(args, kw)
            return self.native(f.name, args, kw, node)
        if isinstance(f, BType):
            return self.native("builtins." + f.name, args, kw, node)
        if isinstance(f, Inst) and self.find(f.cls, "__call__"):
            return self.call_value(self.attr(f, "__call__", node), args, kw, node)
        if f is UNK:
            return UNK
        if f is None or isinstance(f, (tuple, Sym, int)):
            raise PyRaise("TypeError", "%r is not callable" % (f,), node)
        raise Unsupported("call of %r" % (f,))

    def call_fn(self, f, args, kw, node):
        n = f.node
        q = self.pkg.qual.get(n)
        if q:
            self.reached.add(q)
            h = self.hooks.get(("call", q))
            if h:
                r = h(self, f.selfv, args, kw)
                if r is not NotImplemented:
                    return r
        if self.depth > 40:
            raise Unsupported("recursion")
        if f.cls is None and getattr(n, "decorator_list", None):
            raise Unsupported("decorated function " + n.name)
        env = {"$parent": f.env}
        if f.selfv is not None:
            args = [f.selfv] + list(args)
        if f.cls is not None:
            env["$class"] = f.cls
            env["$self"] = args[0] if args else None
        a = n.args
        ps = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        if len(args) > len(ps):
            if not a.vararg:
                raise PyRaise("TypeError", "too many arguments for %s" % (q or "lambda"), node)
            env[a.vararg.arg] = tuple(args[len(ps):])
            args = args[:len(ps)]
        elif a.vararg:
            env[a.vararg.arg] = ()
        for p, v in zip(ps, args):
            env[p] = v
        extra = PDict()
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in ps or k in kwonly:
                if k in ps[:len(args)]:
                    raise PyRaise("TypeError", "argument %s given twice" % k, node)
                env[k] = v
            elif a.kwarg:
                extra.items_.append((k, v))
            else:
                raise PyRaise("TypeError", "unexpected argument %s" % k, node)
        if a.kwarg:
            env[a.kwarg.arg] = extra
        off = len(ps) - len(a.defaults)
        for i, p in enumerate(ps):
            if p not in env:
                if i >= off:
                    env[p] = self.ev(a.defaults[i - off], {}, f.modname)
                else:
                    raise PyRaise("TypeError", "missing argument %s of %s" % (p, q or "lambda"), node)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is None:
                    raise PyRaise("TypeError", "missing argument %s" % x.arg, node)
                env[x.arg] = self.ev(d, {}, f.modname)
        self.depth += 1
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env, f.modname)
            gen = _has_yield(n)
            if gen:
                env["$yield"] = []
            try:
                self.block(n.body, env, f.modname)
                r = None
            except _Return as r_:
                r = r_.v
            return Seq(env["$yield"], None, True) if gen else r
        finally:
            self.depth -= 1

    def native(self, name, args, kw, node):
        h = self.hooks.get(("native", name))
        if h:
            return h(self, args, kw)
        n = name.rpartition(".")[2]
        allowed = KEYWORDS.get(n, ()) if name.startswith(("builtins.", "itertools.", "functools.")) else None
        if allowed is not None and n not in ("dict", "partial"):
            for k in kw:
                if k not in allowed:
                    raise Unsupported("option %s of %s" % (k, name))
        if name.startswith("builtins."):
            if n == "len":
                return self.length(args[0], node)
            if n in ("list", "tuple", "sorted", "reversed", "iter"):
                src = getattr(args[0], "src", None) if args else None
                xs = self.iterate(args[0], node) if args else []
                if n == "sorted":
                    return self.sort(xs, kw.get("key"), self.truth(kw.get("reverse", False)), node)
                if n == "reversed":
                    return Seq(xs[::-1], None, True)
                if n == "iter":
                    if len(args) > 1:
                        raise Unsupported("iter with a sentinel")
                    if isinstance(args[0], Seq) and args[0].once:
                        args[0].items, args[0].src = xs, src
                        return args[0]
                    return Seq(xs, args[0] if isinstance(args[0], (AbsSet, AbsDict)) else src, True)
                return tuple(xs) if n == "tuple" else list(xs)
            if n in ("set", "frozenset"):
                if args and isinstance(args[0], AbsSet):
                    c = AbsSet(args[0].name, args[0].has, args[0].gen); c.over = list(args[0].over); c.closed = getattr(args[0], "closed", lambda: False)
                    return c
                s = PSet()
                for x in (self.iterate(args[0], node) if args else []):
                    if isinstance(x, Each):
                        s.items_.append(x)
                    else:
                        self.sadd(s, x)
                return s
            if n == "dict":
                d = PDict()
                if args:
                    if isinstance(args[0], PDict):
                        d.items_ = list(args[0].items_)
                    else:
                        for x in self.iterate(args[0], node):
                            k, v = unwrap(x)
                            self.dset(d, k, v)
                for k, v in kw.items():
                    self.dset(d, k, v)
                return d
            if n == "range":
                if all(isinstance(x, int) for x in args):
                    return range(*args)
                return UNK
            if n == "enumerate":
                r = []
                start = kw.get("start", args[1] if len(args) > 1 else 0)
                for i, x in enumerate(self.iterate(args[0], node)):
                    r.append(Each(x.src, (UNK, x.val)) if isinstance(x, Each) else (self.binop(ast.Add(), start, i, node), x))
                return Seq(r, None, True)
            if n == "zip":
                its = [None if isinstance(a, Counter) else self.iterate(a, node) for a in args]
                if any(isinstance(x, Each) for it in its if it is not None for x in it):
                    raise Unsupported("zip over an unknown container")
                if args and all(it is None for it in its):
                    raise Unsupported("endless zip")
                m = min([len(it) for it in its if it is not None] or [0])
                its = [[a.step() for _ in range(m)] if it is None else it for it, a in zip(its, args)]
                return Seq([tuple(x) for x in zip(*its)], None, True)
            if n in ("map", "filter"):
                r = []
                if n == "map":
                    its = [None if isinstance(a, Counter) else self.iterate(a, node) for a in args[1:]]
                    if any(it is None for it in its):
                        m = min([len(it) for it in its if it is not None] or [10 ** 9])
                        if m == 10 ** 9:
                            raise Unsupported("endless map")
                        its = [[a.step() for _ in range(m)] if it is None else it for it, a in zip(its, args[1:])]
                    if len(its) > 1 and any(isinstance(x, Each) for it in its for x in it):
                        raise Unsupported("map over unknown containers")
                    if len(its) == 1:
                        for x in its[0]:
                            v = self.call_value(args[0], [unwrap(x)], {}, node)
                            r.append(Each(x.src, v) if isinstance(x, Each) else v)
                    else:
                        for x in zip(*its):
                            r.append(self.call_value(args[0], [unwrap(y) for y in x], {}, node))
                else:
                    for x in self.iterate(args[1], node):
                        v = unwrap(x) if args[0] is None else self.call_value(args[0], [unwrap(x)], {}, node)
                        if self.truth(v):
                            r.append(x)
                return Seq(r, None, True)
            if n in ("all", "any"):
                for x in self.walk(args[0], node):
                    t = self.truth(unwrap(x))
                    if n == "all" and not t:
                        return False
                    if n == "any" and t:
                        return True
                return n == "all"
            if n == "sum":
                xs = self.iterate(args[0], node)
                tot = kw.get("start", args[1] if len(args) > 1 else 0)
                for x in xs:
                    if isinstance(x, Each):
                        v = x.val
                        v = Lin("count(%s)" % x.src.name, 0) if (isinstance(v, int) and v == 1) else Expr("sum", x.src.name, v)
                        tot = self.binop(ast.Add(), tot, v, node)
                    else:
                        tot = self.binop(ast.Add(), tot, x, node)
                return tot
            if n == "isinstance":
                return self.isinstance_(args[0], args[1])
            if n == "type" and len(args) == 1:
                return self.type_of(args[0])
            if n in ("int", "float"):
                v = args[0] if args else 0
                if isinstance(v, (int, float)):
                    return int(v) if n == "int" else float(v)
                if isinstance(v, (Lin, Expr)) or isinstance(v, Alg) and n == "float":
                    return v
                if isinstance(v, str) and len(args) == 1:
                    try:
                        return int(v) if n == "int" else float(v)
                    except ValueError:
                        raise PyRaise("ValueError", "%s of %r" % (n, v), node)
                if v is None or isinstance(v, (tuple, list, Seq, Obj)) and not isinstance(v, Inst):
                    raise PyRaise("TypeError", "%s of %r" % (n, v), node)
                return UNK
            if n == "bool":
                return self.truth(args[0]) if args else False
            if n in ("str", "repr"):
                return args[0] if args and isinstance(args[0], str) else UNK
            if n == "slice":
                return slice(*args)
            if n == "next":
                if isinstance(args[0], Counter):
                    return args[0].step()
                if not (isinstance(args[0], Seq) and args[0].once):
                    if args[0] is UNK or isinstance(args[0], Inst):
                        raise Unsupported("next of %r" % (args[0],))
                    raise PyRaise("TypeError", "%r is not an iterator" % (args[0],), node)
                if args[0].items:
                    if isinstance(args[0].items[0], Each):
                        raise Unsupported("first element of an unknown container")
                    return args[0].items.pop(0)
                if len(args) > 1:
                    return args[1]
                raise PyRaise("StopIteration", "", node)
            if n == "hasattr" and args[1] in ("__iter__", "__len__") and not isinstance(args[0], Inst) and args[0] is not UNK and not isinstance(args[0], Obj):
                if args[0] is None or isinstance(args[0], (int, float, list, tuple, str, range)) or isinstance(args[0], Sym) and args[0].kind in ("unit", "int", "weight"):
                    return isinstance(args[0], (list, tuple, str, range))
            if n == "hasattr" and isinstance(args[0], (PDict, PSet, AbsDict, AbsSet)) and args[1] in ("__iter__", "__len__"):
                return True
            if n == "hasattr" and isinstance(args[0], Inst) and isinstance(args[1], str):
                return args[1] in args[0].attrs or self.find(args[0].cls, args[1]) is not None
            if n == "getattr" and isinstance(args[1], str):
                try:
                    return self.attr(args[0], args[1], node)
                except PyRaise:
                    if len(args) > 2:
                        return args[2]
                    raise
            if n == "print":
                return None
            if n in ("min", "max"):
                xs = list(args) if len(args) > 1 else self.iterate(args[0], node)
                if not xs and len(args) == 1:
                    if "default" in kw:
                        return kw["default"]
                    raise PyRaise("ValueError", "%s of nothing" % n, node)
                ks = [x if kw.get("key") is None else self.call_value(kw["key"], [unwrap(x)], {}, node) for x in xs]
                if any(isinstance(x, Each) for x in xs) or any(not self.orderable(k) for k in ks):
                    return UNK
                best = 0
                for i in range(1, len(xs)):
                    if self.order(ast.Lt() if n == "min" else ast.Gt(), ks[i], ks[best]):
                        best = i
                return xs[best]
            if n == "divmod" and all(isinstance(x, (int, float)) for x in args) and args[1]:
                return divmod(*args)
            if n == "callable":
                return isinstance(args[0], (Fn, Native, ClassRef, BType))
            if n == "setattr" and isinstance(args[0], Inst) and isinstance(args[1], str):
                args[0].attrs[args[1]] = args[2]
                return None
            if n in ("abs", "round", "hash", "id"):
                if all(isinstance(x, (int, float)) for x in args):
                    return {"abs": abs, "round": round}.get(n, lambda *a: UNK)(*args)
                return UNK
            self.unmodelled(name, args, kw)
            return UNK
        if n == "floor" and isinstance(args[0], (int, float)):
            return math.floor(args[0])
        if name == "itertools.product":
            its = [self.iterate(a, node) for a in args]
            k = kw.get("repeat", 1)
            if not isinstance(k, int):
                raise Unsupported("repeat of product")
            its = its * k
            r = [()]
            for it in its:
                r = [a + (b,) for a in r for b in it]
            out = []
            for x in r:
                ea = [y for y in x if isinstance(y, Each)]
                v = tuple(unwrap(y) for y in x)
                out.append(Each(Prod([y.src for y in ea]), v) if ea else v)
            return Seq(out, None, True)
        if name in ("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement"):
            import itertools
            xs = self.iterate(args[0], node)
            if any(isinstance(x, Each) for x in xs) or not all(isinstance(a, int) for a in args[1:]):
                raise Unsupported(name + " over an unknown container")
            return Seq([tuple(x) for x in getattr(itertools, n)(xs, *(list(args[1:]) + list(kw.values())))], None, True)
        if name in ("functools.reduce", "builtins.reduce"):
            xs = [unwrap(x) for x in self.iterate(args[1], node)]
            if len(args) > 2:
                xs = [args[2]] + xs
            if not xs:
                raise PyRaise("TypeError", "reduce of an empty sequence", node)
            v = xs[0]
            for x in xs[1:]:
                v = self.call_value(args[0], [v, x], {}, node)
            return v
        if name in ("itertools.chain", "itertools.chain.from_iterable"):
            xs = args if name.endswith("chain") else [unwrap(x) for x in self.iterate(args[0], node)]
            return Seq([y for a in xs for y in self.iterate(a, node)], None, True)
        if name == "itertools.count":
            start, step = kw.get("start", args[0] if args else 0), kw.get("step", args[1] if len(args) > 1 else 1)
            if not isinstance(step, int):
                raise Unsupported(name)
            return Counter(lambda i: self.binop(ast.Add(), start, i * step, node))
        if name == "itertools.repeat":
            k = kw.get("times", args[1] if len(args) > 1 else None)
            if k is None:
                return Counter(lambda i: args[0])
            if isinstance(k, int):
                return Seq([args[0]] * k, None, True)
        if name == "itertools.islice":
            if isinstance(args[0], Counter) or not all(a is None or isinstance(a, int) for a in args[1:]):
                raise Unsupported(name)
            xs = self.iterate(args[0], node)
            if any(isinstance(x, Each) for x in xs):
                raise Unsupported(name + " over an unknown container")
            sl = slice(*args[1:])
            if isinstance(args[0], Seq) and args[0].once and sl.stop is not None:
                args[0].items = xs[sl.stop:]
            return Seq(xs[sl], None, True)
        if name == "itertools.starmap":
            return Seq([self.call_value(args[0], self.iterate(self.plain(x), node), {}, node) for x in self.iterate(args[1], node)], None, True)
        if name == "itertools.zip_longest":
            its = [self.iterate(a, node) for a in args]
            m = max([len(i) for i in its] or [0])
            return Seq([tuple(self.plain(i[k]) if k < len(i) else kw.get("fillvalue") for i in its) for k in range(m)], None, True)
        if name.startswith("operator.") and n in ("add", "and_", "or_", "mul", "sub", "eq", "ne", "lt", "le", "gt", "ge", "getitem", "contains", "not_", "truth"):
            if n in ("add", "mul", "sub", "and_", "or_"):
                return self.binop({"add": ast.Add, "mul": ast.Mult, "sub": ast.Sub, "and_": ast.BitAnd, "or_": ast.BitOr}[n](), args[0], args[1], node)
            if n in ("eq", "ne"):
                return self.eq(args[0], args[1]) == (n == "eq")
            if n in ("lt", "le", "gt", "ge"):
                return self.order({"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}[n](), args[0], args[1])
            if n == "getitem":
                return self.item(args[0], args[1], node)
            if n == "contains":
                return self.contains(args[0], args[1])
            return self.truth(args[0]) == (n == "truth")
        if name == "operator.itemgetter":
            return Native(lambda a, k: self.item(a[0], args[0], node) if len(args) == 1 else tuple(self.item(a[0], i, node) for i in args))
        if name == "operator.attrgetter" and len(args) == 1 and isinstance(args[0], str):
            return Native(lambda a, k: self.attr(a[0], args[0], node))
        if name == "functools.partial":
            return Native(lambda a, k: self.call_value(args[0], list(args[1:]) + list(a), dict(kw, **k), node))
        if name == "copy.copy" and isinstance(args[0], (list, PDict, PSet, AbsSet)):
            return list(args[0]) if isinstance(args[0], list) else self.method(args[0], "copy", [], {}, node)
        if name == "collections.OrderedDict":
            return self.native("builtins.dict", args, kw, node)
        if name == "collections.defaultdict":
            d = DefDict((), args[0] if args else None)
            d.items_ = self.native("builtins.dict", args[1:], kw, node).items_
            return d
        if name == "collections.Counter" and not kw:
            d = DefDict((), None, True)
            if args:
                self.counted(d, args[0], 1, node)
            return d
        if name == "collections.deque" and not kw and len(args) < 2:
            return Deque([self.plain(x) for x in self.iterate(args[0], node)] if args else [])
        if name in ("itertools.takewhile", "itertools.dropwhile", "itertools.filterfalse") and len(args) == 2:
            xs = [self.plain(x) for x in self.iterate(args[1], node)]
            if n == "filterfalse":
                return Seq([x for x in xs if not self.truth(self.call_value(args[0], [x], {}, node) if args[0] is not None else x)], None, True)
            i = 0
            while i < len(xs) and self.truth(self.call_value(args[0], [xs[i]], {}, node)):
                i += 1
            return Seq(xs[:i] if n == "takewhile" else xs[i:], None, True)
        if name == "itertools.accumulate" and len(args) < 3 and not kw:
            r = []
            for x in self.iterate(args[0], node):
                x = self.plain(x)
                r.append(x if not r else self.call_value(args[1], [r[-1], x], {}, node) if len(args) > 1 else self.binop(ast.Add(), r[-1], x, node))
            return Seq(r, None, True)
        if name == "itertools.pairwise":
            xs = [self.plain(x) for x in self.iterate(args[0], node)]
            return Seq(list(zip(xs, xs[1:])), None, True)
        if name == "itertools.compress":
            xs, ys = [[self.plain(x) for x in self.iterate(a, node)] for a in args]
            return Seq([x for x, y in zip(xs, ys) if self.truth(y)], None, True)
        self.unmodelled(name, args, kw)
        return UNK

    def unmodelled(self, name, args, kw):
        """a function without a model may change what it is given"""
        for a in list(args) + list(kw.values()):
            if isinstance(a, (list, PDict, PSet, AbsDict, AbsSet, Inst, Fn, Seq, Counter)):
                raise Unsupported("call of " + name)


ABCS = dict((m + k, k) for m in ("collections.abc.", "collections.", "typing.")
            for k in ("Mapping", "Sequence", "Set", "Iterator", "Iterable", "Sized", "Container"))
SETOPS = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor}
KEYWORDS = {"sorted": ("key", "reverse"), "min": ("key", "default"), "max": ("key", "default"), "sum": ("start",), "enumerate": ("start",),
            "product": ("repeat",), "combinations": ("r",), "permutations": ("r",), "combinations_with_replacement": ("r",),
            "count": ("start", "step"), "repeat": ("times",), "zip_longest": ("fillvalue",), "print": ("sep", "end", "file", "flush"),
            "int": ("base",)}


class Seq(object):
    """an unfolded view, or (once) an iterator or generator, which can be walked once"""
    def __init__(self, items, src=None, once=False):
        self.items, self.src, self.once = list(items), src, once

    def take(self):
        r = self.items
        if self.once:
            self.items, self.src = [], None
        return list(r)

    def __repr__(self):
        return "Seq%r" % (self.items,)


class Counter(object):
    """an endless iterator: itertools.count, repeat or cycle"""
    def __init__(self, at):
        self.at, self.i = at, 0

    def step(self):
        self.i += 1
        return self.at(self.i - 1)


class Prod(object):
    def __init__(self, srcs):
        self.srcs = srcs
        self.name = " x ".join(getattr(s, "name", "?") for s in srcs)


class Each(object):
    """one arbitrary element standing for every element taken from src"""
    def __init__(self, src, val):
        self.src, self.val = src, val

    def __repr__(self):
        return "each(%s: %r)" % (getattr(self.src, "name", "?"), self.val)


class SuperRef(Inst):
    def __init__(self, obj, cls):
        Inst.__init__(self, obj.cls)
        self.obj, self.after = obj, cls
        self.attrs = obj.attrs


def unwrap(x):
    return x.val if isinstance(x, Each) else x


def offset(s, k):
    b, o = base_of(s), base_off(s) + k
    if o == 0:
        return Sym(b, "int")
    return Sym("%s%+d" % (b, o), "int")


def base_of(s):
    i = max(s.name.rfind("+"), s.name.rfind("-"))
    return s.name if i <= 0 else s.name[:i]


def base_off(s):
    i = max(s.name.rfind("+"), s.name.rfind("-"))
    return 0 if i <= 0 else int(s.name[i:])


def plus_terms(a):
    if isinstance(a, Expr) and a.op == "+":
        return list(a.args)
    return [a]


def _load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def _has_yield(fn):
    r = getattr(fn, '_yields', None)
    if r is None:
        r = fn._yields = _has_yield_(fn)
    return r


def _has_yield_(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False
