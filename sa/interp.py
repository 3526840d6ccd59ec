"""Context-sensitive, flow-sensitive points-to / effect / provenance analysis.

An abstract interpretation of the package's syntax trees.  Values are finite
sets of atoms (constants, allocation sites, functions, classes, opaque scalars
carrying provenance tags); the heap maps (allocation site, field) to such sets
and only grows; loops and recursion are iterated to a fixpoint; branches are
pruned only when a condition folds to a constant.  Nothing is executed.

Atoms
  ('c', type, value)   constant
  ('x', tag)           opaque immutable scalar (node names, weights, numbers)
  ('o', oid)           heap object
  ('k', cid)           package class          ('bk', name)  builtin class
  ('f', fid)           package function       ('bf', fid, selfatom) bound
  ('bm', atom, name)   method of a builtin/external object
  ('b', name)          builtin function       ('ext', dotted) external thing
  ('m', name)          package module
"""
import ast, builtins, sys
from collections import defaultdict
from .model import Package, loc, enclosing_class

sys.setrecursionlimit(60000)

X = ('x', '')
XS = frozenset([X])
NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)
BOTTOM = frozenset()
BOOLS = frozenset([TRUE, FALSE])
MAXCONST = 6
CTXKINDS = ('c', 'f', 'bf', 'k', 'b', 'bk', 'm')   # argument atoms that distinguish calling contexts
MAXDEPTH = 70
BUILTIN_CLASSES = {"list", "dict", "set", "frozenset", "tuple", "str", "int", "float", "bool",
                   "bytes", "object", "slice", "type", "complex", "range"}
MUT_SIZE = {
    'list': {"insert", "pop", "remove", "clear"},
    'dict': {"pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__"},
    'set': {"add", "discard", "remove", "pop", "clear", "update", "difference_update",
            "intersection_update", "symmetric_difference_update"},
}
MUTATORS = {
    'list': {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "appendleft", "popleft"},
    'dict': {"pop", "popitem", "clear", "update", "setdefault"},
    'set': {"add", "discard", "remove", "pop", "clear", "update", "difference_update",
            "intersection_update", "symmetric_difference_update"},
}
ANY_MUTATOR = set().union(*MUTATORS.values()) | {"appendleft", "popleft", "fill", "put", "itemset", "resize"}
STDLIB_CHECK = ("math", "itertools", "random", "json", "functools", "operator", "os", "collections",
                "heapq", "copy", "string", "time", "pickle")
import math as _m, itertools as _i, random as _r, json as _j, functools as _f, operator as _o, os as _os
import collections as _c, heapq as _h, copy as _cp, string as _s, time as _t, pickle as _p
import collections.abc
STDLIB = dict(math=_m, itertools=_i, random=_r, json=_j, functools=_f, operator=_o, os=_os, collections=_c,
              heapq=_h, copy=_cp, string=_s, time=_t, pickle=_p)
PYTYPE = {'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'frozenset': frozenset}


def const(v):
    return ('c', type(v).__name__, v)


def fs(*a):
    return frozenset(a)


class Oid(object):
    """interned name of an allocation site in its context"""
    __slots__ = ("key", "n")

    @staticmethod
    def make(table, key):
        o = table.get(key)
        if o is None:
            o = Oid()
            o.key, o.n = key, len(table)
            table[key] = o
        return o

    def __repr__(self):
        return "%s@%s#%d" % (self.key[0], self.key[1], self.n)

    def __lt__(self, other):
        return str(self) < str(other)


class Func(object):
    __slots__ = ("fid", "node", "mod", "cls", "env", "name", "is_gen", "has_nested", "defaults", "kwdefaults",
                 "locals", "globals_")


def _is_gen(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _contains_yield(stmts):
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Budget(Exception):
    """the configured amount of work is used up (deterministic, unlike a clock)"""


class Ctx(object):
    __slots__ = ("key", "fn", "ret", "mut", "round", "active", "callstr", "phase", "recv", "genoid", "srcs", "uid",
                 "noreturn", "args")

    def __init__(self):
        self.ret = set(); self.mut = set(); self.round = -1; self.active = False; self.srcs = set()
        self.noreturn = True


class Frame(object):
    __slots__ = ("ctx", "fn", "mod", "envid", "yields", "loops", "is_gen", "trystack", "loopsrcs")

    def __init__(self):
        self.loopsrcs = []


def join_env(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    r = {}
    for k in set(a) | set(b):
        va, vb = a.get(k), b.get(k)
        r[k] = va if vb is None else vb if va is None else va if va == vb else va | vb
    return r


class Interp(object):
    def __init__(self, pkg=None, k=3):
        self.pkg = pkg or Package()
        self.K = k
        self.heap = defaultdict(set)
        self._oids = {}
        self.cdepth = {}
        self._unhash = {}
        self._plain = {}
        self.wide = set()
        self.handle_cids = {('cls', 'pymnet.net.MultilayerNode')}
        self.kind = {}
        self.cls_of = {}
        self.origin = {}          # oid -> label of a protected (caller-owned / module) object
        self.funcs = {}
        self.classes = {}         # cid -> (node, mod, bases atoms, module)
        self.contexts = {}
        self.version = 0
        self.round = 0
        self.phase = 'M'
        self.stack = []           # call chain (list of (fname, site))
        self.events = {}          # mutation events
        self.iter_events = {}
        self.loop_sites = set()
        self.attr_ok, self.attr_bad = set(), {}
        self.call_ok, self.call_bad = set(), {}
        self.reached_functions = set()
        self.call_sites = set()
        self.unresolved = set()
        self.loaded = {}
        self.depth_hits = 0
        self.config = {}
        self.sub_hook = None
        self.pinned = {}          # (oid, attr) -> frozenset: fields fixed by configuration
        self.watch_reads = None
        self.ext_calls = {}
        self.quiet = 0
        self.budget = None
        self.runs = 0
        for m in sorted(self.pkg.modules):
            self.load_module(m)

    # ------------------------------------------------------------------ heap
    def put(self, oid, field, atoms):
        if (oid, field) in self.pinned:
            return
        k = self.kind.get(oid)
        if k == 'tuple':
            if oid in self.cdepth and (oid, field) in self.heap:
                return
            if field not in ('$idx', '$len'):
                atoms = self.nohandle(atoms)
        elif (k == 'set' and field == '[]') or field == '{}':
            atoms = self.plain(atoms)
        s = self.heap[(oid, field)]
        n = len(s)
        if (oid, field) in self.wide:
            atoms = [a for a in atoms if a[0] != 'c' or a[1] in ('NoneType', 'bool')]
        s.update(atoms)
        if len(s) != n:
            if not (isinstance(field, str) and field[:1] == '$'):
                cs = [a for a in s if a[0] == 'c' and a[1] not in ('NoneType', 'bool')]
                if len(cs) > MAXCONST:
                    s -= set(cs); s.add(X); self.wide.add((oid, field))
            self.version += 1

    def plain(self, atoms, depth=0):
        """the view of a value used as set element, dictionary key, node name or
        weight: such values are hashable, so mutable containers and node handles
        (net[node]) do not occur among them"""
        if all(a[0] != 'o' or a[1] in self.cdepth for a in atoms):
            return atoms
        r = set()
        for a in atoms:
            if a[0] != 'o' or a[1] in self.cdepth:
                r.add(a); continue
            o = a[1]
            k = self.kind.get(o)
            if k == 'param':
                r.add(X)
            elif k in ('list', 'dict', 'set', 'kwdict', 'iter'):
                pass
            elif k == 'inst' and (self.cls_of.get(o) in self.handle_cids or self.unhashable(self.cls_of.get(o))):
                pass
            elif k == 'tuple':
                r.add(('o', self.plain_tuple(o, depth)))
            else:
                r.add(a)
        return frozenset(r) or XS

    def unhashable(self, cid):
        """instances of a class that defines __eq__ without __hash__"""
        r = self._unhash.get(cid)
        if r is None:
            r = False
            for c in self.mro(cid):
                if self.heap.get((c, '__hash__')):
                    break
                if self.heap.get((c, '__eq__')):
                    r = True
                    break
            self._unhash[cid] = r
        return r

    def nohandle(self, atoms):
        bad = [a for a in atoms if a[0] == 'o' and self.cls_of.get(a[1]) in self.handle_cids]
        return frozenset(atoms) - frozenset(bad) if bad else atoms

    def plain_tuple(self, o, depth):
        if depth > 1:
            deep = Oid.make(self._oids, ('tuple', 'canon', '*', 'deep', '-', None))
            if deep not in self.kind:
                self.kind[deep] = 'tuple'
                self.heap[(deep, '[]')] = set([X, ('o', deep)])
                self.cdepth[deep] = 2
            return deep
        ck = (o, depth)
        hit = self._plain.get(ck)
        if hit is not None and hit[0] == self.version:
            return hit[1]
        v0 = self.version
        n = self.tuple_len(o)
        if n is not None:
            parts = tuple(self.plain(self.get(o, i), depth + 1) for i in range(n))
            r = self.canon(n, parts) or o
        else:
            r = self.canon('*', (self.plain(self.content(o), depth + 1),)) or o
        self._plain[ck] = (v0, r)
        return r

    def get(self, oid, field):
        p = self.pinned.get((oid, field))
        if p is not None:
            return p
        return frozenset(self.heap.get((oid, field), ()))

    def alloc(self, kind, node, frame, extra=None):
        site = "%s:%d:%d" % (frame.mod.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        ctx = frame.ctx
        cs = ctx.callstr if ctx else ()
        if kind in ('tuple', 'iter'):
            cs = cs[-1:]
        oid = Oid.make(self._oids, (kind, site, extra, cs, self.phase, ctx.recv if ctx else None))
        if oid not in self.kind:
            self.kind[oid] = kind
            self.version += 1
            if self.phase == 'M':
                self.origin[oid] = "module-level state created at %s" % loc(node)
        return oid

    def canon(self, tag, parts):
        """immutable tuples of plain values are shared between sites"""
        depth = 0
        for p in parts:
            for a in p:
                if a[0] == 'o':
                    d = self.cdepth.get(a[1])
                    if d is None:
                        return None
                    depth = max(depth, d + 1)
                elif a[0] not in ('x', 'c'):
                    return None
        if depth > 1:
            # deeper nests are summarised by one self-containing tuple per length
            deep = Oid.make(self._oids, ('tuple', 'canon', '*', 'deep', '-', None))
            el = frozenset([X, ('o', deep)])
            if deep not in self.kind:
                self.kind[deep] = 'tuple'
                self.heap[(deep, '[]')] = set(el)
                self.cdepth[deep] = 2
            if tag == '*':
                return deep
            parts, depth = (el,) * tag, 2
        oid = Oid.make(self._oids, ('tuple', 'canon', tag, tuple(parts), '-', None))
        if oid not in self.kind:
            self.kind[oid] = 'tuple'
            self.cdepth[oid] = depth
            if tag == '*':
                self.put(oid, '[]', parts[0])
            else:
                for i, e in enumerate(parts):
                    self.put(oid, i, e)
                self.heap[(oid, '$idx')] = set(range(len(parts)))
                self.put(oid, '$len', {len(parts)})
                self.put(oid, '[]', BOTTOM)
        return oid

    def obj(self, kind, node, frame, content=None, extra=None):
        if kind == 'tuple':
            oid = self.canon('*', (frozenset(content or ()),))
            if oid is not None:
                return fs(('o', oid))
        oid = self.alloc(kind, node, frame, extra)
        if content:
            self.put(oid, '[]', content)
        return fs(('o', oid))

    def content(self, oid):
        r = set(self.heap.get((oid, '[]'), ()))
        if self.kind.get(oid) in ('tuple', 'list', 'kwdict'):
            for f in self.heap.get((oid, '$idx'), ()):
                r |= self.heap.get((oid, f), set())
        if self.kind.get(oid) in ('ext', 'param'):
            r.add(('o', oid))
            if self.kind.get(oid) == 'ext':
                r.add(X)
        return frozenset(r)

    def mktuple(self, elts, node, frame):
        oid = self.canon(len(elts), tuple(frozenset(e) for e in elts))
        if oid is not None:
            return fs(('o', oid))
        oid = self.alloc('tuple', node, frame, len(elts))
        for i, e in enumerate(elts):
            self.put(oid, i, e)
            self.put(oid, '$idx', {i})
        self.put(oid, '$len', {len(elts)})
        return fs(('o', oid))

    def tuple_len(self, oid):
        if self.heap.get((oid, '[]')):
            return None
        ln = self.heap.get((oid, '$len'))
        if ln and len(ln) == 1 and self.kind.get(oid) == 'tuple':
            return next(iter(ln))
        return None

    # ------------------------------------------------------------- mutations
    def mutate(self, oid, op, node, frame, env, what=""):
        k = self.kind.get(oid)
        base = 'dict' if k in ('dict', 'kwdict') else k
        size = op in MUT_SIZE.get(base, ()) or (k == 'param' and op in MUT_SIZE['dict'] | MUT_SIZE['set'])
        if size and env is not None:
            env['$mut'] = env.get('$mut', BOTTOM) | fs((oid, loc(node), node))
            frame.ctx.mut.add((oid, loc(node)))
        o = self.origin.get(oid)
        if o is not None and self.phase == 'E':
            key = (o, op, loc(node), what)
            if key not in self.events:
                q = self.pkg.qual.get(getattr(frame.fn, "node", None), frame.mod.name)
                self.events[key] = {"origin": o, "op": op, "where": loc(node), "function": q, "field": what,
                                    "kind": k, "obj": str(oid), "chain": [s for s in self.stack]}

    # --------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.loaded:
            return
        self.loaded[name] = True
        mod = self.pkg.modules[name]
        moid = ('mod', name)
        self.kind[moid] = 'mod'
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            if parent in self.pkg.modules:
                self.put(('mod', parent), leaf, {('m', name)})
        self.put(moid, '__name__', {const(name)})
        self.put(moid, '__file__', {X})
        self.put(moid, '__doc__', {X})
        f = Frame()
        c = Ctx(); c.callstr = (); c.recv = None; c.phase = 'M'; c.uid = moid; c.key = name; c.fn = None
        f.ctx, f.fn, f.mod, f.envid, f.yields, f.loops, f.is_gen, f.trystack = c, None, mod, moid, None, [], False, []
        oldphase, self.phase = self.phase, 'M'
        for _ in range(2):
            env = {'$mut': BOTTOM}
            self.exec_block(mod.tree.body, env, f)
        self.phase = oldphase

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env, fr):
        for s in stmts:
            if env is None:
                return None
            env = self.exec(s, env, fr)
        return env

    def exec(self, s, env, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        for t in fr.trystack:
            t.append(dict(env))
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, env, fr)
            return env
        return m(s, env, fr)

    def setname(self, name, atoms, env, fr):
        atoms = frozenset(atoms)
        fn = fr.fn
        if fn is None or (fn.globals_ and name in fn.globals_):
            self.put(('mod', fr.mod.name), name, atoms)
            if fn is not None:
                o = ('mod', fr.mod.name)
                key = ("module global", name, loc(fn.node), "")
                if self.phase == 'E' and key not in self.events:
                    self.events[key] = {"origin": "module-level state %s.%s" % (fr.mod.name, name), "op": "rebind",
                                        "where": loc(fn.node), "function": self.pkg.qual.get(fn.node, fn.name),
                                        "field": name, "kind": "global", "chain": list(self.stack)}
                return
        env[name] = atoms
        if fn is not None and fn.has_nested:
            self.put(fr.envid, name, atoms)

    def s_Assign(self, s, env, fr):
        v = self.ev(s.value, env, fr)
        for t in s.targets:
            self.assign(t, v, env, fr)
        return env

    def s_AnnAssign(self, s, env, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, fr), env, fr)
        return env

    def s_AugAssign(self, s, env, fr):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        load._mod = getattr(s, "_mod", None)
        old = self.ev(load, env, fr)
        v = self.ev(s.value, env, fr)
        listy = any(a[0] == 'o' and self.kind.get(a[1]) in ('list', 'set', 'dict', 'tuple', 'iter') for a in v)
        inplace = set()
        for a in old:
            if a[0] == 'o':
                k = self.kind.get(a[1])
                if k in ('list', 'set', 'dict'):
                    inplace.add(a)
                    self.mutate(a[1], 'extend' if k == 'list' else 'update', s, fr, env, "+=")
                    self.put(a[1], '[]', self.iterate(v, s, env, fr))
                elif k == 'param' and listy:
                    self.mutate(a[1], 'update', s, fr, env, "+=")
                elif k == 'ext':
                    inplace.add(a)
                    self.mutate(a[1], 'inplace', s, fr, env, "+=")
        r = self.binop(old, v, s, env, fr)
        r = frozenset(inplace) | frozenset(a for a in r if not (a[0] == 'o' and inplace and self.kind.get(a[1]) == 'list'))
        self.assign(t, r, env, fr)
        return env

    def s_Expr(self, s, env, fr):
        self.ev(s.value, env, fr)
        if isinstance(s.value, ast.Call) and env.get('$dead'):
            return None
        return env

    def s_Return(self, s, env, fr):
        v = self.ev(s.value, env, fr) if s.value is not None else fs(NONE)
        fr.ctx.ret |= v
        fr.ctx.noreturn = False
        return None

    def s_Raise(self, s, env, fr):
        if s.exc is not None:
            self.ev(s.exc, env, fr)
        if s.cause is not None:
            self.ev(s.cause, env, fr)
        return None

    def s_Assert(self, s, env, fr):
        t, f, te, fe = self.cond(s.test, env, fr)
        if s.msg is not None and fe is not None:
            self.ev(s.msg, dict(fe), fr)
        return te

    def s_Pass(self, s, env, fr):
        return env

    def s_Global(self, s, env, fr):
        return env

    s_Nonlocal = s_Global

    def s_Break(self, s, env, fr):
        if fr.loops:
            fr.loops[-1][0].append(env)
        return None

    def s_Continue(self, s, env, fr):
        if fr.loops:
            fr.loops[-1][1].append(env)
        return None

    def s_If(self, s, env, fr):
        t, f, te, fe = self.cond(s.test, env, fr)
        r1 = self.exec_block(s.body, te, fr) if te is not None else None
        r2 = self.exec_block(s.orelse, fe, fr) if fe is not None else None
        return join_env(r1, r2)

    def s_While(self, s, env, fr):
        out = None
        cur = dict(env)
        for _ in range(12):
            t, f, te, fe = self.cond(s.test, dict(cur), fr)
            out = join_env(out, fe)
            if te is None:
                break
            fr.loops.append(([], []))
            e = self.exec_block(s.body, te, fr)
            br, co = fr.loops.pop()
            for c in co:
                e = join_env(e, c)
            for b in br:
                out = join_env(out, b) if not s.orelse else join_env(out, b)
            if e is None:
                break
            n = self.widen(join_env(cur, e))
            if n == cur:
                break
            cur = n
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out, fr)
        return out

    def widen(self, env):
        for k, v in env.items():
            if len(v) > MAXCONST:
                cs = [a for a in v if a[0] == 'c' and a[1] not in ('NoneType', 'bool')]
                if len(cs) > MAXCONST:
                    env[k] = (v - frozenset(cs)) | XS
        return env

    def s_For(self, s, env, fr):
        it = self.ev(s.iter, env, fr)
        srcs = self.sources(it, s.iter, env, fr)
        if fr.is_gen and _contains_yield(s.body):
            fr.ctx.srcs |= srcs
        elems = self.iterate(it, s.iter, env, fr)
        return self.loop(s, s.target, elems, srcs, env, fr, it)

    def loop(self, s, target, elems, srcs, env, fr, it=None):
        if self.phase == 'E':
            self.loop_sites.add(loc(s))
        out = dict(env)
        cur = dict(env)
        for _ in range(12):
            e = dict(cur)
            mut0 = e.get('$mut', BOTTOM)
            self.assign(target, elems, e, fr)
            e['$mut'] = BOTTOM
            fr.loops.append(([], []))
            fr.loopsrcs.append((target, srcs))
            e = self.exec_block(s.body, e, fr)
            fr.loopsrcs.pop()
            br, co = fr.loops.pop()
            back = e
            for c in co:
                back = join_env(back, c)
            if back is not None:
                self.check_iter_mut(srcs, back.get('$mut', BOTTOM), s, target, fr)
            for b in br:
                b['$mut'] = b.get('$mut', BOTTOM) | mut0
                out = join_env(out, b)
            if back is None:
                break
            back['$mut'] = back.get('$mut', BOTTOM) | mut0
            n = self.widen(join_env(cur, back))
            if n == cur:
                break
            cur = n
        out = join_env(out, cur)
        if s.orelse:
            out = self.exec_block(s.orelse, out, fr)
        return out

    def check_iter_mut(self, srcs, mut, s, target, fr):
        for (oid, where, site) in mut:
            if oid in srcs:
                key = (loc(s), where, loc(site), oid in self.origin)
                if key not in self.iter_events:
                    self.iter_events[key] = {"oid": oid, "loop": loc(s), "mutation": where, "site": loc(site),
                                             "function": self.pkg.qual.get(getattr(fr.fn, "node", None), fr.mod.name),
                                             "kind": self.kind.get(oid), "object": str(oid), "phase": self.phase,
                                             "same": self._same_root(s, site, fr)}

    def _same_root(self, s, site, fr):
        """is the iterated value reached from a variable that the resizing
        operation in the loop body also uses"""
        it = s.iter if hasattr(s, 'iter') else getattr(getattr(s, '_parent', None), 'iter', None)
        if it is None:
            return ()
        fn = getattr(fr.fn, 'node', None)
        a = self._roots(it, fn)
        if isinstance(site, ast.Call):
            b = set()
            if isinstance(site.func, ast.Attribute):
                b |= self._roots(site.func.value, fn)
            for x in list(site.args) + [k.value for k in site.keywords]:
                b |= self._roots(x, fn)
        elif isinstance(site, (ast.Subscript, ast.Attribute)):
            b = self._roots(site.value, fn)
        elif isinstance(site, (ast.AugAssign, ast.Assign, ast.Delete)):
            b = set()
            for t in (site.targets if not isinstance(site, ast.AugAssign) else [site.target]):
                b |= self._roots(t, fn)
        else:
            b = {n.id for n in ast.walk(site) if isinstance(n, ast.Name)}
        rebound = {n.id for st in getattr(s, 'body', []) for n in ast.walk(st)
                   if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return tuple(sorted((a & b) - rebound))

    def _roots(self, e, fn, depth=0):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
            e = e.value
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                r = self._roots(e.func.value, fn, depth)
            else:
                r = set()
            if isinstance(e.func, ast.Name):
                for x in e.args:
                    r |= self._roots(x, fn, depth)
            return r
        if not isinstance(e, ast.Name):
            return set()
        r = {e.id}
        if fn is not None and depth < 4:
            defs = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)]
            if len(defs) == 1:
                st = defs[0]._parent
                if isinstance(st, ast.Assign) and st.targets == [defs[0]]:
                    v = st.value
                    if isinstance(v, (ast.Attribute, ast.Subscript)) or (
                            isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and
                            v.func.attr in ("keys", "values", "items", "get", "setdefault", "iter_nodes", "iter_layers",
                                            "iter_node_layers", "neighbors", "__iter__")):
                        r |= self._roots(v, fn, depth + 1)
        return r

    def s_Try(self, s, env, fr):
        snaps = []
        fr.trystack.append(snaps)
        snaps.append(dict(env))
        body = self.exec_block(s.body, dict(env), fr)
        fr.trystack.pop()
        exc = None
        for e in snaps:
            exc = join_env(exc, e)
        if body is not None:
            exc = join_env(exc, body)
        out = body
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out, fr)
        for h in s.handlers:
            he = dict(exc)
            if h.type is not None:
                self.ev(h.type, he, fr)
            if h.name:
                self.setname(h.name, XS, he, fr)
            out = join_env(out, self.exec_block(h.body, he, fr))
        if s.finalbody:
            if out is None:
                self.exec_block(s.finalbody, dict(exc), fr)
                return None
            out = self.exec_block(s.finalbody, dict(out), fr)
        return out

    s_TryStar = s_Try

    def s_With(self, s, env, fr):
        for i in s.items:
            v = self.ev(i.context_expr, env, fr)
            r = set()
            for a in v:
                if a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                    m = self.getattr_atoms(fs(a), '__enter__', s, env, fr)
                    r |= self.call(m, [], {}, s, env, fr)
                else:
                    r.add(a)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, r, env, fr)
        env = self.exec_block(s.body, env, fr)
        return env

    def s_Delete(self, s, env, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, env, fr)
                k = self.ev(t.slice, env, fr)
                for a in base:
                    if a[0] == 'o':
                        kd = self.kind.get(a[1])
                        if kd == 'inst':
                            m = self.class_attr_of(a[1], '__delitem__')
                            if m:
                                self.call(self.bind(m, a), [k], {}, s, env, fr)
                            else:
                                self.mutate(a[1], '__delitem__', t, fr, env, "del []")
                        else:
                            self.mutate(a[1], '__delitem__', t, fr, env, "del []")
            elif isinstance(t, ast.Attribute):
                for a in self.ev(t.value, env, fr):
                    if a[0] == 'o':
                        self.mutate(a[1], 'delattr', t, fr, env, t.attr)
        return env

    def s_FunctionDef(self, s, env, fr):
        a = self.make_func(s, env, fr)
        for d in s.decorator_list:
            dv = self.ev(d, env, fr)
            if ('b', 'property') in dv:
                a = fs(('prop', next(iter(a))[1]))
            elif ('b', 'staticmethod') in dv or ('b', 'classmethod') in dv:
                a = fs(('static' if ('b', 'staticmethod') in dv else 'classm', next(iter(a))[1]))
            elif any(x[0] in ('f', 'bf') for x in dv):
                a = a | self.call(dv, [a], {}, d, env, fr)
        self.setname(s.name, a, env, fr)
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, env, fr):
        envid = fr.envid if fr.fn is not None else None
        fid = (node, envid)
        if fid not in self.funcs:
            f = Func()
            f.fid, f.node, f.mod, f.env = fid, node, fr.mod, envid
            f.name = getattr(node, "name", "<lambda>")
            p = getattr(node, "_parent", None)
            f.cls = enclosing_class(node) if isinstance(p, ast.ClassDef) else None
            f.is_gen = _is_gen(node)
            f.has_nested = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node) if x is not node)
            f.globals_ = set()
            f.locals = set(_locals_of(node))
            for x in ast.walk(node):
                if isinstance(x, ast.Global):
                    f.globals_ |= set(x.names)
            self.funcs[fid] = f
        f = self.funcs[fid]
        f.defaults = [self.ev(d, env, fr) for d in node.args.defaults]
        f.kwdefaults = [self.ev(d, env, fr) if d is not None else None for d in node.args.kw_defaults]
        for dn, dv in zip(list(node.args.defaults) + [d for d in node.args.kw_defaults if d is not None],
                          f.defaults + [d for d in f.kwdefaults if d is not None]):
            for a in dv:
                if a[0] == 'o' and self.kind.get(a[1]) in ('list', 'dict', 'set') and self.phase == 'M':
                    self.origin[a[1]] = "default value of a parameter of %s (%s)" % (
                        self.pkg.qual.get(node, f.name), loc(dn))
        return fs(('f', fid))

    def s_ClassDef(self, s, env, fr):
        cid = ('cls', self.pkg.qual.get(s, s.name))
        bases = [self.ev(b, env, fr) for b in s.bases]
        self.classes[cid] = (s, fr.mod, bases)
        self.kind[cid] = 'class'
        f = Frame()
        f.ctx, f.fn, f.mod, f.envid = fr.ctx, fr.fn, fr.mod, fr.envid
        f.yields, f.loops, f.is_gen, f.trystack = None, [], False, []
        ns = {'$mut': BOTTOM}
        # class body: names become class attributes
        f.fn = _ClassScope(fr.fn)
        self._class_exec(s.body, ns, f, cid, fr)
        for k, v in ns.items():
            if not k.startswith('$'):
                self.put(cid, k, v)
        self.setname(s.name, fs(('k', cid)), env, fr)
        return env

    def _class_exec(self, body, ns, f, cid, fr):
        self.exec_block(body, ns, f)

    def s_Import(self, s, env, fr):
        for a in s.names:
            if a.asname:
                self.setname(a.asname, self.import_mod(a.name), env, fr)
            else:
                top = a.name.split('.')[0]
                self.import_mod(a.name)
                self.setname(top, self.import_mod(top), env, fr)
        return env

    def import_mod(self, name):
        if name in self.pkg.modules:
            self.load_module(name)
            return fs(('m', name))
        return fs(('ext', name))

    def s_ImportFrom(self, s, env, fr):
        base = s.module or ''
        if s.level:
            p = fr.mod.package.split('.')
            p = p[:len(p) - (s.level - 1)]
            base = '.'.join(p + ([base] if base else []))
        for a in s.names:
            if base in self.pkg.modules:
                self.load_module(base)
                if a.name == '*':
                    for (o, n), v in list(self.heap.items()):
                        if o == ('mod', base) and isinstance(n, str) and not n.startswith('_'):
                            self.setname(n, frozenset(v), env, fr)
                    continue
                v = set()
                if base + '.' + a.name in self.pkg.modules:
                    self.load_module(base + '.' + a.name)
                    v.add(('m', base + '.' + a.name))
                hv = self.heap.get((('mod', base), a.name), set())
                v |= {x for x in hv if not (x[0] == 'm' and len(hv) > 1)} if hv else set()
                if not v:
                    v = {X}
                self.setname(a.asname or a.name, v, env, fr)
            else:
                if a.name == '*':
                    continue
                self.setname(a.asname or a.name, fs(('ext', base + '.' + a.name)), env, fr)
        return env

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env, fr):
        v = frozenset(v)
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            cols = [set() for _ in range(n)]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for a in v:
                ln = self.tuple_len(a[1]) if a[0] == 'o' else None
                if ln is not None and not star:
                    if ln == n:
                        for i in range(n):
                            cols[i] |= self.get(a[1], i)
                        continue
                    elif ln is not None:
                        continue  # cannot unpack: other alternative
                c = self.iterate(fs(a), t, env, fr)
                for i in range(n):
                    cols[i] |= c
            for e, c in zip(t.elts, cols):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.obj('list', e, fr, c), env, fr)
                else:
                    self.assign(e, c or XS, env, fr)
        elif isinstance(t, ast.Attribute):
            for a in self.ev(t.value, env, fr):
                self.setattr_atom(a, t.attr, v, t, env, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env, fr)
            k = self.ev(t.slice, env, fr)
            for a in base:
                self.setitem(a, k, v, t, env, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr)

    def setattr_atom(self, a, name, v, node, env, fr):
        if a[0] == 'o':
            self.mutate(a[1], 'setattr', node, fr, env, name)
            if self.kind.get(a[1]) == 'param':
                return
            self.put(a[1], name, v)
        elif a[0] == 'k':
            self.put(a[1], name, v)
            if self.phase == 'E':
                self._state_event("class attribute %s.%s" % (a[1][1], name), 'setattr', node, fr, name)
        elif a[0] == 'm':
            self.put(('mod', a[1]), name, v)
            if self.phase == 'E':
                self._state_event("module-level state %s.%s" % (a[1], name), 'setattr', node, fr, name)
        elif a[0] == 'ext':
            if self.phase == 'E':
                self._state_event("attribute of external module %s.%s" % (a[1], name), 'setattr', node, fr, name)

    def _state_event(self, origin, op, node, fr, what):
        key = (origin, op, loc(node), what)
        if key not in self.events:
            self.events[key] = {"origin": origin, "op": op, "where": loc(node),
                                "function": self.pkg.qual.get(getattr(fr.fn, "node", None), fr.mod.name),
                                "field": what, "kind": "state", "chain": list(self.stack)}

    def setitem(self, a, k, v, node, env, fr):
        if a[0] != 'o':
            return
        oid = a[1]
        kd = self.kind.get(oid)
        if kd == 'inst':
            m = self.class_attr_of(oid, '__setitem__')
            if m:
                self.call(self.bind(m, a), [self.plain(k), self.plain(v)], {}, node, env, fr)
            else:
                self.mutate(oid, '__setitem__', node, fr, env, "[]=")
                self.put(oid, '[]', v)
            return
        if kd == 'index':
            self.index_store(oid, k, v, node, env, fr)
            return
        if kd in ('tuple', 'frozenset'):
            return
        exempt = kd in ('dict', 'kwdict', 'param') and self._key_is_loop_var(node, oid, fr, env)
        if exempt:
            # overwriting an existing key of the iterated dictionary: not a size change
            o = self.origin.get(oid)
            self.mutate(oid, 'setvalue', node, fr, env, "[]=")
        else:
            self.mutate(oid, '__setitem__' if kd in ('dict', 'kwdict', 'param') else 'setvalue', node, fr, env, "[]=")
        if kd == 'param':
            return
        if kd in ('dict', 'kwdict'):
            self.put(oid, '{}', k)
            ck = [x for x in k if x[0] == 'c' and x[1] == 'str']
            if len(ck) == len(k) and len(ck) == 1:
                self.put(oid, ('k', ck[0][2]), v)
                self.put(oid, '$keys', {ck[0][2]})
            self.put(oid, '[]', v)
        else:
            self.put(oid, '[]', v)

    def _key_is_loop_var(self, node, oid, fr, env):
        """d[k]=... inside 'for k in d' (k bound by that loop)"""
        key = getattr(node, "slice", None)
        if key is None:
            return False
        kd = ast.dump(key)
        for t0, srcs in fr.loopsrcs:
            if oid in srcs:
                for t in [t0] + (list(t0.elts) if isinstance(t0, ast.Tuple) else []):
                    if ast.dump(_as_load(t)) == kd:
                        return True
        return False

    # ------------------------------------------------------------ conditions
    def cond(self, test, env, fr):
        """-> (may_true, may_false, env_true, env_false)"""
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, fe = dict(env), None
                for v in test.values:
                    if cur is None:
                        break
                    t, f, te, fe1 = self.cond(v, cur, fr)
                    fe = join_env(fe, fe1)
                    cur = te
                return cur is not None, fe is not None, cur, fe
            cur, te = dict(env), None
            for v in test.values:
                if cur is None:
                    break
                t, f, te1, fe1 = self.cond(v, cur, fr)
                te = join_env(te, te1)
                cur = fe1
            return te is not None, cur is not None, te, cur
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f, te, fe = self.cond(test.operand, env, fr)
            return f, t, fe, te
        v = self.ev(test, env, fr)
        t, f = self.truth(v)
        te = self.refine(test, dict(env), True, fr) if t else None
        fe = self.refine(test, dict(env), False, fr) if f else None
        return t, f, te, fe

    def truth(self, v):
        if not v:
            return True, True
        t = f = False
        for a in v:
            if a[0] == 'c':
                if a[2]:
                    t = True
                else:
                    f = True
            elif a[0] in ('f', 'bf', 'k', 'm', 'b', 'bk', 'bm', 'ext'):
                t = True
                if a[0] in ('ext',):
                    f = f or False
            elif a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                t = True
                if self.class_attr_of(a[1], '__len__') or self.class_attr_of(a[1], '__bool__'):
                    f = True
            elif a[0] == 'o' and self.kind.get(a[1]) == 'tuple' and self.tuple_len(a[1]) is not None:
                if self.tuple_len(a[1]):
                    t = True
                else:
                    f = True
            else:
                t = f = True
        return t, f

    def refine(self, test, env, truth, fr):
        def upd(expr, pred):
            if isinstance(expr, ast.Name) and expr.id in env:
                nv = frozenset(a for a in env[expr.id] if pred(a))
                if nv:
                    env[expr.id] = nv
                elif env[expr.id]:
                    return False
            return True
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r, op = test.left, test.comparators[0], test.ops[0]
            eq = isinstance(op, (ast.Eq, ast.Is))
            ne = isinstance(op, (ast.NotEq, ast.IsNot))
            if eq or ne:
                want = truth if eq else not truth
                if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                    l, r = r, l
                cv = None
                if isinstance(r, ast.Constant):
                    cv = const(r.value)
                if cv is not None:
                    if want:
                        # keep matching constants and unknowns
                        if not upd(l, lambda a: (a == cv) if a[0] == 'c' else (cv != NONE and a[0] == 'x')
                                   or (cv == NONE and a[0] == 'x') or (a[0] == 'o' and cv != NONE and self.kind.get(a[1]) in ('param', 'ext'))
                                   or (a[0] == 'o' and cv == NONE and self.kind.get(a[1]) in ('param', 'ext'))):
                            return None
                    else:
                        if not upd(l, lambda a: a != cv):
                            return None
                # type(x)==C / x.__class__==C
                tx = None
                if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'type' and len(l.args) == 1:
                    tx = l.args[0]
                elif isinstance(l, ast.Attribute) and l.attr == '__class__':
                    tx = l.value
                if isinstance(tx, ast.Name) and tx.id in env:
                    cls = self.ev(r, dict(env), fr)
                    if len(cls) == 1:
                        c = next(iter(cls))
                        keep = frozenset(a for a in env[tx.id]
                                         if self._exact_type(a, c) in ((True, None) if want else (False, None)))
                        if not keep and env[tx.id]:
                            return None
                        env[tx.id] = keep
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' \
                and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            cls = self.ev(test.args[1], dict(env), fr)
            n = test.args[0].id
            if n in env:
                keep = frozenset(a for a in env[n]
                                 if self._isinst(a, cls) in ((True, None) if truth else (False, None)))
                if not keep and env[n]:
                    return None
                env[n] = keep
        elif isinstance(test, ast.Name):
            def ok(a):
                t, f = self.truth(fs(a))
                return t if truth else f
            if not upd(test, ok):
                return None
        return env

    def _exact_type(self, a, c):
        """True/False/None(unknown): is type(a) exactly c"""
        if a[0] == 'c':
            return c == ('bk', a[1]) if c[0] in ('bk', 'k') else None
        if a[0] == 'o':
            k = self.kind.get(a[1])
            if k == 'inst':
                return c == ('k', self.cls_of[a[1]]) if c[0] in ('k', 'bk') else None
            if k in PYTYPE:
                return c == ('bk', k) if c[0] in ('bk', 'k') else None
        return None

    def _isinst(self, a, cls):
        res = []
        flat = set()
        for c in cls:
            if c[0] == 'o' and self.kind.get(c[1]) == 'tuple':
                flat |= self.content(c[1])
            else:
                flat.add(c)
        for c in flat:
            if a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                if c[0] == 'k':
                    res.append(c[1] in self.mro(self.cls_of[a[1]]))
                elif c[0] == 'bk':
                    res.append(c[1] == 'object')
                else:
                    res.append(None)
            elif a[0] == 'o' and self.kind.get(a[1]) in PYTYPE:
                if c[0] == 'bk':
                    res.append(c[1] == self.kind[a[1]] or c[1] == 'object')
                elif c[0] == 'k':
                    res.append(False)
                else:
                    res.append(None)
            elif a[0] == 'c':
                if c[0] == 'bk':
                    try:
                        res.append(isinstance(a[2], getattr(builtins, c[1])))
                    except TypeError:
                        res.append(None)
                elif c[0] == 'k':
                    res.append(False)
                else:
                    res.append(None)
            elif a[0] == 'x':
                res.append(False if c[0] == 'k' else None)
            else:
                res.append(None)
        if any(r is True for r in res):
            return True
        if res and all(r is False for r in res):
            return False
        return None

    # ----------------------------------------------------------- expressions
    def ev(self, e, env, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env, fr)
            return XS
        return m(e, env, fr)

    def e_Constant(self, e, env, fr):
        v = e.value
        if v is Ellipsis or isinstance(v, bytes):
            return XS
        return fs(const(v))

    def e_Name(self, e, env, fr):
        return self.lookup(e.id, env, fr)

    def lookup(self, name, env, fr):
        if name in env:
            return env[name]
        fn = fr.fn
        # closure chain
        f = fn
        if isinstance(f, _ClassScope):
            f = f.fn
        if f is not None and name in f.locals and not (f.globals_ and name in f.globals_):
            # local not assigned on this path (captured later / loop); look in the cell
            v = self.get(fr.envid, name) if f.has_nested else BOTTOM
            if v:
                return v
            return XS
        env_id = f.env if f is not None else None
        while env_id is not None:
            v = self.heap.get((env_id, name))
            if v:
                return frozenset(v)
            env_id = self._env_parent(env_id)
        v = self.heap.get((('mod', fr.mod.name), name))
        if v:
            return frozenset(v)
        if name in BUILTIN_CLASSES:
            return fs(('bk', name))
        if hasattr(builtins, name):
            return fs(('b', name))
        return XS

    def _env_parent(self, envid):
        return self.env_parent.get(envid) if hasattr(self, "env_parent") else None

    def e_Tuple(self, e, env, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            c = set()
            for x in e.elts:
                c |= self.iterate(self.ev(x.value, env, fr), x, env, fr) if isinstance(x, ast.Starred) else self.ev(x, env, fr)
            return self.obj('tuple', e, fr, c, 'star')
        return self.mktuple([self.ev(x, env, fr) for x in e.elts], e, fr)

    def e_List(self, e, env, fr):
        oid = self.alloc('list', e, fr)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.put(oid, '[]', self.iterate(self.ev(x.value, env, fr), x, env, fr))
            else:
                self.put(oid, '[]', self.ev(x, env, fr))
        return fs(('o', oid))

    def e_Set(self, e, env, fr):
        oid = self.alloc('set', e, fr)
        for x in e.elts:
            self.put(oid, '[]', self.ev(x.value if isinstance(x, ast.Starred) else x, env, fr))
        return fs(('o', oid))

    def e_Dict(self, e, env, fr):
        oid = self.alloc('dict', e, fr)
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, fr)
            if k is None:
                self.put(oid, '[]', self.subscript_any(vv))
                self.put(oid, '{}', self.iterate(vv, e, env, fr))
                continue
            kk = self.ev(k, env, fr)
            self.put(oid, '{}', kk)
            ck = [x for x in kk if x[0] == 'c' and x[1] == 'str']
            if len(ck) == 1 and len(kk) == 1:
                self.put(oid, ('k', ck[0][2]), vv)
                self.put(oid, '$keys', {ck[0][2]})
            self.put(oid, '[]', vv)
        return fs(('o', oid))

    def e_Starred(self, e, env, fr):
        return self.iterate(self.ev(e.value, env, fr), e, env, fr)

    def e_JoinedStr(self, e, env, fr):
        for v in e.values:
            self.ev(v, env, fr)
        return XS

    def e_FormattedValue(self, e, env, fr):
        self.ev(e.value, env, fr)
        return XS

    def e_Lambda(self, e, env, fr):
        # publish the current bindings of the enclosing scope for the closure
        if fr.fn is not None and not isinstance(fr.fn, _ClassScope):
            for x in ast.walk(e.body):
                if isinstance(x, ast.Name) and x.id in env:
                    self.put(fr.envid, x.id, env[x.id])
        return self.make_func(e, env, fr)

    def e_IfExp(self, e, env, fr):
        t, f, te, fe = self.cond(e.test, env, fr)
        r = BOTTOM
        if te is not None:
            r |= self.ev(e.body, te, fr); self._merge_mut(env, te)
        if fe is not None:
            r |= self.ev(e.orelse, fe, fr); self._merge_mut(env, fe)
        return r

    def _merge_mut(self, env, e2):
        env['$mut'] = env.get('$mut', BOTTOM) | e2.get('$mut', BOTTOM)

    def e_BoolOp(self, e, env, fr):
        r = set()
        cur = dict(env)
        for i, v in enumerate(e.values):
            val = self.ev(v, cur, fr)
            last = i == len(e.values) - 1
            t, f = self.truth(val)
            self._merge_mut(env, cur)
            if last:
                r |= val
                break
            if isinstance(e.op, ast.And):
                r |= {a for a in val if self.truth(fs(a))[1]}
                if not t:
                    break
                cur = self.refine(v, cur, True, fr)
            else:
                r |= {a for a in val if self.truth(fs(a))[0]}
                if not f:
                    break
                cur = self.refine(v, cur, False, fr)
            if cur is None:
                break
        return frozenset(r)

    def e_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v)
            return frozenset(([FALSE] if t else []) + ([TRUE] if f else []))
        if isinstance(e.op, ast.USub) and len(v) == 1:
            a = next(iter(v))
            if a[0] == 'c' and a[1] in ('int', 'float'):
                return fs(const(-a[2]))
        return self.scal(v)

    def scal(self, *vs):
        tags = set()
        for v in vs:
            for a in v:
                if a[0] == 'x' and a[1]:
                    tags.add(a)
        return frozenset(tags) or XS

    def e_BinOp(self, e, env, fr):
        l = self.ev(e.left, env, fr)
        r = self.ev(e.right, env, fr)
        return self.binop(l, r, e, env, fr)

    def binop(self, l, r, e, env, fr):
        op = e.op
        out = set()
        lk = {self.kind.get(a[1]) for a in l if a[0] == 'o'}
        rk = {self.kind.get(a[1]) for a in r if a[0] == 'o'}
        if not lk and not rk:
            if len(l) == 1 and len(r) == 1:
                a, b = next(iter(l)), next(iter(r))
                if a[0] == 'c' and b[0] == 'c' and a[1] == 'int' and b[1] == 'int':
                    try:
                        if isinstance(op, ast.Add):
                            v = a[2] + b[2]
                        elif isinstance(op, ast.Sub):
                            v = a[2] - b[2]
                        elif isinstance(op, ast.Mult):
                            v = a[2] * b[2]
                        else:
                            v = None
                        if v is not None and -64 <= v <= 64:
                            return fs(const(v))
                    except Exception:
                        pass
            return self.scal(l, r)
        if isinstance(op, ast.Mod) and not lk:
            return self.scal(l, r)
        kinds = lk | rk
        cont = set()
        for a in l | r:
            if a[0] == 'o':
                if self.kind.get(a[1]) in ('list', 'tuple', 'set', 'frozenset', 'dict', 'iter', 'kwdict'):
                    cont |= self.content(a[1])
        if isinstance(op, ast.Add):
            la = [a for a in l if a[0] == 'o' and self.kind.get(a[1]) == 'tuple']
            ra = [a for a in r if a[0] == 'o' and self.kind.get(a[1]) == 'tuple']
            if la and ra and len(la) == len(l) and len(ra) == len(r) and len(la) * len(ra) <= 36:
                res = set()
                for x in la:
                    for y in ra:
                        n1, n2 = self.tuple_len(x[1]), self.tuple_len(y[1])
                        if n1 is None or n2 is None or n1 + n2 > 12:
                            res = None
                            break
                        res |= self.mktuple([self.get(x[1], i) for i in range(n1)] + [self.get(y[1], i) for i in range(n2)], e, fr)
                    if res is None:
                        break
                if res:
                    return frozenset(res)
        if isinstance(op, ast.Mult):
            base = 'tuple' if 'tuple' in kinds else 'list' if 'list' in kinds else None
            if base:
                out |= self.obj(base, e, fr, cont, 'mul')
        for base in ('list', 'tuple', 'set', 'dict', 'frozenset'):
            if base in kinds and not isinstance(op, ast.Mult):
                o = self.obj(base, e, fr, cont, 'binop')
                if base == 'dict':
                    for a in l | r:
                        if a[0] == 'o' and self.kind.get(a[1]) == 'dict':
                            self.put(next(iter(o))[1], '{}', self.get(a[1], '{}'))
                out |= o
        if 'ext' in kinds or 'param' in kinds:
            out |= {a for a in l | r if a[0] == 'o' and self.kind.get(a[1]) == 'ext'} or {X}
        if 'inst' in kinds:
            out.add(X)
        out |= {a for a in self.scal(l, r) if a[1]}
        return frozenset(out) or XS

    def e_Compare(self, e, env, fr):
        vals = [self.ev(e.left, env, fr)] + [self.ev(c, env, fr) for c in e.comparators]
        if len(e.ops) == 1:
            return self.compare(e.ops[0], vals[0], vals[1], e, env, fr)
        res = set()
        for i, op in enumerate(e.ops):
            res |= self.compare(op, vals[i], vals[i + 1], e, env, fr)
        if res == {TRUE}:
            return fs(TRUE)
        return BOOLS

    def compare(self, op, l, r, e, env, fr):
        ok = lambda v: len(v) >= 1 and all(a[0] in ('c', 'k', 'bk') for a in v)
        if isinstance(op, (ast.In, ast.NotIn)):
            res = set()
            for b in r:
                if b[0] == 'o' and self.kind.get(b[1]) == 'inst':
                    m = self.class_attr_of(b[1], '__contains__')
                    if m:
                        self.call(self.bind(m, b), [l], {}, e, env, fr)
                    else:
                        self.iterate(fs(b), e, env, fr)
                if b[0] == 'o' and self.kind.get(b[1]) == 'kwdict' and all(a[0] == 'c' for a in l) \
                        and not self.heap.get((b[1], '$open')):
                    keys = self.heap.get((b[1], '$keys'), set())
                    for a in l:
                        res.add(TRUE if a[2] in keys else FALSE)
                elif b[0] == 'o' and self.kind.get(b[1]) == 'list' and all(a[0] == 'c' for a in l) and l:
                    res |= BOOLS
                else:
                    res |= BOOLS
            res = frozenset(res) or BOOLS
            if isinstance(op, ast.NotIn):
                res = frozenset({TRUE: FALSE, FALSE: TRUE}[x] for x in res)
            return res
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for a in l:
                if a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                    m = self.class_attr_of(a[1], '__eq__' if isinstance(op, ast.Eq) else '__ne__')
                    if m and not (r == fs(NONE)):
                        self.call(self.bind(m, a), [r], {}, e, env, fr)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            res = set()
            if isinstance(op, (ast.Eq, ast.NotEq)) and any(
                    a[0] == 'o' and self.kind.get(a[1]) == 'ext' for a in l | r):
                return XS          # arrays and data frames compare element by element
            for a in l:
                for b in r:
                    x = self._eq(a, b)
                    if x is None:
                        res |= BOOLS
                    else:
                        res.add(TRUE if x else FALSE)
                    if len(res) == 2:
                        return BOOLS
            if not res:
                return BOOLS
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                res = {TRUE if x == FALSE else FALSE for x in res}
            return frozenset(res)
        if ok(l) and ok(r) and all(a[0] == 'c' for a in l | r):
            import operator
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            res = set()
            for a in l:
                for b in r:
                    try:
                        res.add(const(bool(f(a[2], b[2]))))
                    except TypeError:
                        return BOOLS
            return frozenset(res)
        return BOOLS

    def _eq(self, a, b):
        """True/False/None"""
        cls = ('c',)
        if a[0] == 'c' and b[0] == 'c':
            try:
                return a[2] == b[2]
            except Exception:
                return None
        if a == NONE or b == NONE:
            o = b if a == NONE else a
            if o[0] in ('f', 'bf', 'k', 'm', 'bk', 'b', 'bm'):
                return False
            if o[0] == 'o' and self.kind.get(o[1]) in ('list', 'dict', 'set', 'tuple', 'inst', 'iter', 'kwdict', 'index',
                                                       'row', 'frozenset'):
                return False
            if o[0] == 'x' and o[1] == 'nn':
                return False
            return None
        if a[0] in ('k', 'bk') and b[0] in ('k', 'bk'):
            return a == b
        if a[0] == 'c' and b[0] == 'o' or a[0] == 'o' and b[0] == 'c':
            o = a if a[0] == 'o' else b
            if self.kind.get(o[1]) in ('list', 'dict', 'set', 'tuple', 'iter', 'kwdict', 'frozenset'):
                return False
        if a[0] == 'o' and b[0] == 'o':
            la, lb = self.tuple_len(a[1]), self.tuple_len(b[1])
            if la is not None and lb is not None and la != lb:
                return False
        return None

    # -------------------------------------------------- attribute / subscript
    def mro(self, cid):
        out, todo = [], [cid]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            if c in self.classes:
                for b in self.classes[c][2]:
                    for a in b:
                        if a[0] == 'k':
                            todo.append(a[1])
        return out

    def ext_bases(self, cid):
        r = set()
        for c in self.mro(cid):
            if c in self.classes:
                for b in self.classes[c][2]:
                    for a in b:
                        if a[0] in ('ext',):
                            r.add(a[1])
                        elif a[0] == 'bk' and a[1] != 'object':
                            r.add(a[1])
                        elif a[0] in ('x', 'o'):
                            r.add('?')
        return r

    def class_attr(self, cid, name):
        for c in self.mro(cid):
            v = self.heap.get((c, name))
            if v:
                return frozenset(v)
        return BOTTOM

    def class_attr_of(self, oid, name):
        return self.class_attr(self.cls_of[oid], name)

    def bind(self, atoms, selfatom):
        r = set()
        for a in atoms:
            if a[0] == 'f':
                r.add(('bf', a[1], selfatom))
            elif a[0] == 'static':
                r.add(('f', a[1]))
            elif a[0] == 'classm':
                r.add(('bf', a[1], ('k', self.cls_of[selfatom[1]])))
            else:
                r.add(a)
        return frozenset(r)

    def e_Attribute(self, e, env, fr):
        return self.getattr_atoms(self.ev(e.value, env, fr), e.attr, e, env, fr)

    def getattr_atoms(self, atoms, name, node, env, fr):
        r = set()
        bad = []
        good = False
        for a in atoms:
            v = self.getattr1(a, name, node, env, fr)
            if v is None:
                bad.append(a)
            else:
                good = True
                r |= v
        site = (loc(node), getattr(node, 'col_offset', 0), name)
        if good:
            self.attr_ok.add(site)
        elif bad:
            self.attr_bad.setdefault(site, (node, [self.describe(b) for b in bad]))
        if good and self.sub_hook:
            pass
        return frozenset(r) if r else (XS if not good or atoms else XS)

    def describe(self, a):
        if a[0] == 'o':
            k = self.kind.get(a[1])
            return "%s instance" % self.cls_of[a[1]][1] if k == 'inst' else str(k)
        if a[0] == 'c':
            return repr(a[2])
        return str(a[0]) + " " + str(a[1])

    def getattr1(self, a, name, node, env, fr):
        """None -> certainly no such attribute"""
        if a[0] == 'x':
            return fs(a) if a[1] else XS
        if a[0] == 'c':
            if name == '__class__':
                return fs(('bk', a[1]))
            if a[2] is not None and not hasattr(type(a[2]), name):
                return None
            if a[2] is None:
                return None
            return fs(('bm', a, name))
        if a[0] == 'o':
            oid = a[1]
            k = self.kind.get(oid)
            if name == '__class__':
                if k == 'inst':
                    return fs(('k', self.cls_of[oid]))
                if k in PYTYPE:
                    return fs(('bk', k))
                return XS
            if k == 'inst':
                r = set()
                if self.watch_reads is not None and self.phase == 'E':
                    self.watch_reads.setdefault((oid, name), set()).add((loc(node), self.pkg.qual.get(getattr(fr.fn, 'node', None), '')))
                iv = self.pinned.get((oid, name))
                if iv is None:
                    iv = self.heap.get((oid, name))
                if iv:
                    r |= iv
                cv = self.class_attr_of(oid, name)
                if not iv or any(x[0] == 'prop' for x in cv):
                    for x in cv:
                        if x[0] == 'prop':
                            r |= self.call(fs(('bf', x[1], a)), [], {}, node, env, fr)
                        elif x[0] == 'propcls':
                            r |= self.call(fs(x[1]), [fs(a)], {}, node, env, fr)
                        else:
                            r |= self.bind(fs(x), a)
                if r:
                    return frozenset(r)
                if self.ext_bases(self.cls_of[oid]):
                    return fs(('bm', a, name))
                if name == '__dict__':
                    return XS
                if self.cls_of[oid] and name.startswith('__') and hasattr(object, name):
                    return fs(('bm', a, name))
                # defined on some path in the class hierarchy?  then unknown, else missing
                return None
            if k in ('list', 'dict', 'set', 'tuple', 'frozenset'):
                if not hasattr(PYTYPE[k], name) and not self.heap.get((oid, '$sub')):
                    return None
                return fs(('bm', a, name))
            if k == 'kwdict':
                return fs(('bm', a, name))
            if k == 'param':
                if name in ('shape', 'columns', 'index', 'size', 'dtype'):
                    return fs(a)
                return fs(('bm', a, name), a)
            if k == 'ext':
                return fs(('bm', a, name), a)
            return fs(('bm', a, name))
        if a[0] == 'k':
            v = self.class_attr(a[1], name)
            if v:
                return frozenset(('f', x[1]) if x[0] in ('static',) else ('bf', x[1], a) if x[0] == 'classm' else x for x in v)
            if self.ext_bases(a[1]) or name.startswith('__'):
                return XS
            return None
        if a[0] == 'm':
            v = self.heap.get((('mod', a[1]), name))
            if v:
                return frozenset(v)
            if a[1] + '.' + name in self.pkg.modules:
                return fs(('m', a[1] + '.' + name))
            if name.startswith('__') or self.has_dynamic_names(a[1]):
                return XS
            return None
        if a[0] == 'ext':
            top = a[1]
            if top in STDLIB:
                if not hasattr(STDLIB[top], name):
                    return None
            return fs(('ext', a[1] + '.' + name))
        if a[0] in ('bk',):
            return fs(('bkm', a[1], name)) if hasattr(getattr(builtins, a[1]), name) else None
        if a[0] in ('f', 'bf', 'b', 'bm'):
            return XS
        return XS

    def has_dynamic_names(self, modname):
        for n in ast.walk(self.pkg.modules[modname].tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals', 'setattr'):
                return True
        return False

    def e_Subscript(self, e, env, fr):
        base = self.ev(e.value, env, fr)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x, env, fr)
            return self.slice_of(base, e, env, fr)
        k = self.ev(e.slice, env, fr)
        return self.subscript(base, k, e, env, fr)

    def e_Slice(self, e, env, fr):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env, fr)
        return XS

    def slice_of(self, base, e, env, fr):
        r = set()
        for a in base:
            if a[0] == 'o':
                k = self.kind.get(a[1])
                if k in ('list', 'tuple', 'iter'):
                    ln = self.tuple_len(a[1])
                    bounds = [x.value if isinstance(x, ast.Constant) else (-x.operand.value if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant) else '?') if x is not None else None
                              for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    if ln is not None and '?' not in bounds:
                        idx = list(range(ln))[slice(*bounds)]
                        r |= self.mktuple([self.get(a[1], j) for j in idx], e, fr)
                    else:
                        r |= self.obj('tuple' if k == 'tuple' else 'list', e, fr, self.content(a[1]), 'slice')
                elif k == 'inst':
                    r |= self.subscript(fs(a), XS, e, env, fr)
                else:
                    r.add(a)
            elif a[0] == 'c' and a[1] == 'str':
                r.add(X)
            else:
                r.add(a)
        return frozenset(r) or XS

    def subscript_any(self, base):
        r = set()
        for a in base:
            if a[0] == 'o':
                r |= self.content(a[1])
            else:
                r.add(a if a[0] == 'x' else X)
        return frozenset(r) or XS

    def subscript(self, base, k, e, env, fr):
        r = set()
        for a in base:
            if a[0] == 'x':
                r.add(a)
            elif a[0] == 'o':
                oid = a[1]
                kd = self.kind.get(oid)
                if kd == 'inst':
                    m = self.class_attr_of(oid, '__getitem__')
                    if m:
                        r |= self.call(self.bind(m, a), [k], {}, e, env, fr)
                    else:
                        r |= self.get(oid, '[]') or XS
                elif kd in ('index', 'row'):
                    r |= self.index_read(oid, k, e, env, fr)
                elif kd == 'tuple':
                    ks = list(k)
                    if len(ks) == 1 and ks[0][0] == 'c' and ks[0][1] == 'int' and self.tuple_len(oid) is not None:
                        i, n = ks[0][2], self.tuple_len(oid)
                        if i < 0:
                            i += n
                        if 0 <= i < n:
                            r |= self.get(oid, i)
                        continue
                    r |= self.content(oid)
                elif kd in ('dict', 'kwdict'):
                    ks = list(k)
                    keys = self.heap.get((oid, '$keys'), set())
                    if len(ks) == 1 and ks[0][0] == 'c' and ks[0][2] in keys and kd == 'kwdict':
                        r |= self.get(oid, ('k', ks[0][2]))
                    else:
                        c = self.get(oid, '[]')
                        r |= c if c else BOTTOM
                elif kd in ('ext', 'param'):
                    r |= self.content(oid)
                elif kd == 'mod' or kd == 'class':
                    r.add(X)
                else:
                    r |= self.content(oid)
            elif a[0] == 'c' and a[1] == 'str':
                r.add(X)
            elif a[0] in ('ext',):
                r.add(X)
            elif a[0] in ('k', 'f', 'bf', 'm'):
                r.add(X)
        return frozenset(r)

    # --- provenance-labelled adjacency indexes (used by the direction rules)
    def index_read(self, oid, k, e, env, fr):
        return self.index_hook(self, 'read', oid, k, None, e, env, fr)

    def index_store(self, oid, k, v, e, env, fr):
        return self.index_hook(self, 'store', oid, k, v, e, env, fr)

    # ------------------------------------------------------------- iteration
    def iterate(self, atoms, node, env, fr):
        r = set()
        for a in atoms:
            if a[0] == 'x':
                r.add(a)
            elif a[0] == 'c':
                if a[1] == 'str':
                    r.add(X)
            elif a[0] == 'o':
                oid = a[1]
                k = self.kind.get(oid)
                if k in ('dict', 'kwdict'):
                    r |= self.get(oid, '{}')
                elif k == 'inst':
                    m = self.class_attr_of(oid, '__iter__')
                    if m:
                        it = self.call(self.bind(m, a), [], {}, node, env, fr)
                        it = frozenset(x for x in it if x != a)
                        r |= self.iterate(it, node, env, fr)
                    else:
                        m = self.class_attr_of(oid, '__getitem__')
                        if m:
                            r |= self.call(self.bind(m, a), [XS], {}, node, env, fr)
                        else:
                            r |= self.get(oid, '[]')
                            if self.ext_bases(self.cls_of[oid]):
                                r.add(X)
                elif k in ('index', 'row'):
                    r |= self.index_hook(self, 'iter', oid, None, None, node, env, fr)
                else:
                    r |= self.content(oid)
            elif a[0] in ('ext', 'bm', 'b', 'f', 'bf'):
                r.add(X)
            elif a[0] == 'k':
                r.add(X)
        return frozenset(r)

    def sources(self, atoms, node, env, fr, depth=0):
        """containers that are traversed lazily when iterating over the value"""
        r = set()
        for a in atoms:
            if a[0] == 'o':
                oid = a[1]
                k = self.kind.get(oid)
                if k in ('list', 'dict', 'set', 'kwdict', 'param'):
                    r.add(oid)
                elif k == 'iter':
                    r |= self.heap.get((oid, '$srcs'), set())
                elif k == 'inst' and depth < 4:
                    m = self.class_attr_of(oid, '__iter__')
                    if m:
                        it = self.call(self.bind(m, a), [], {}, node, env, fr)
                        r |= self.sources(frozenset(x for x in it if x != a), node, env, fr, depth + 1)
        return r

    def comp(self, e, elts, env, fr, kind):
        env2 = dict(env)
        allsrcs = set()

        def rec(i, en):
            if i == len(e.generators):
                return [self.ev(x, en, fr) for x in elts]
            g = e.generators[i]
            it = self.ev(g.iter, en, fr)
            srcs = self.sources(it, g.iter, en, fr)
            allsrcs.update(srcs)
            el = self.iterate(it, g.iter, en, fr)
            mut0 = en.get('$mut', BOTTOM)
            en['$mut'] = BOTTOM
            if not el:
                el = BOTTOM
            self.assign_comp(g.target, el, en, fr)
            cur = en
            for c in g.ifs:
                t, f, te, fe = self.cond(c, cur, fr)
                if te is None:
                    return None
                cur = te
            res = rec(i + 1, cur)
            en['$mut'] = en.get('$mut', BOTTOM) | cur.get('$mut', BOTTOM)
            self.check_iter_mut(srcs, en.get('$mut', BOTTOM), g.target, g.target, fr)
            en['$mut'] = en['$mut'] | mut0
            return res
        res = rec(0, env2)
        env['$mut'] = env.get('$mut', BOTTOM) | env2.get('$mut', BOTTOM)
        return res, allsrcs

    def assign_comp(self, t, v, en, fr):
        self.assign(t, v, en, fr)

    def e_ListComp(self, e, env, fr):
        r, _ = self.comp(e, [e.elt], env, fr, 'list')
        return self.obj('list', e, fr, r[0] if r else None)

    def e_SetComp(self, e, env, fr):
        r, _ = self.comp(e, [e.elt], env, fr, 'set')
        return self.obj('set', e, fr, r[0] if r else None)

    def e_GeneratorExp(self, e, env, fr):
        r, srcs = self.comp(e, [e.elt], env, fr, 'iter')
        o = self.obj('iter', e, fr, r[0] if r else None)
        self.put(next(iter(o))[1], '$srcs', srcs)
        return o

    def e_DictComp(self, e, env, fr):
        r, _ = self.comp(e, [e.key, e.value], env, fr, 'dict')
        o = self.obj('dict', e, fr)
        if r:
            self.put(next(iter(o))[1], '{}', r[0])
            self.put(next(iter(o))[1], '[]', r[1])
        return o

    def e_Yield(self, e, env, fr):
        v = self.ev(e.value, env, fr) if e.value is not None else fs(NONE)
        if fr.yields is not None:
            self.put(fr.yields, '[]', v)
        return XS

    def e_YieldFrom(self, e, env, fr):
        it = self.ev(e.value, env, fr)
        v = self.iterate(it, e, env, fr)
        if fr.yields is not None:
            self.put(fr.yields, '[]', v)
            fr.ctx.srcs |= self.sources(it, e, env, fr)
        return XS

    def e_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        self.assign(e.target, v, env, fr)
        return v

    def e_Await(self, e, env, fr):
        return self.ev(e.value, env, fr)

    # ----------------------------------------------------------------- calls
    def e_Call(self, e, env, fr):
        f = self.ev(e.func, env, fr)
        args, kw, star, dstar = [], {}, [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, fr)
                # known-length tuples are spread exactly
                vs = list(v)
                if len(vs) == 1 and vs[0][0] == 'o' and self.tuple_len(vs[0][1]) is not None and not star:
                    for i in range(self.tuple_len(vs[0][1])):
                        args.append(self.get(vs[0][1], i))
                else:
                    star.append(self.iterate(v, a, env, fr))
            else:
                v = self.ev(a, env, fr)
                if star:
                    star.append(v)
                else:
                    args.append(v)
        for k in e.keywords:
            v = self.ev(k.value, env, fr)
            if k.arg is None:
                dstar.append(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e, env, fr, star, dstar)

    def call(self, fatoms, args, kw, node, env, fr, star=(), dstar=()):
        r = set()
        self.call_sites.add((loc(node), getattr(node, 'col_offset', 0)))
        returned = not fatoms
        ok = False
        badmsg = None
        groups = {}
        for a in fatoms:
            if a[0] == 'bf':
                groups.setdefault((a[1], self.recv_key(a[2])), []).append(a[2])
        todo = [('bf', k[0], frozenset(v)) for k, v in groups.items()]
        todo += [a for a in fatoms if a[0] != 'bf']
        for a in todo:
            if a[0] == 'f':
                res = self.call_func(a[1], None, args, kw, node, env, fr, star, dstar)
            elif a[0] == 'bf':
                res = self.call_func(a[1], a[2], args, kw, node, env, fr, star, dstar)
            elif a[0] == 'k':
                res = self.instantiate(a[1], args, kw, node, env, fr, star, dstar)
            elif a[0] == 'b':
                ok = True
                res = self.builtin(a[1], args, kw, node, env, fr, star, dstar)
            elif a[0] == 'bk':
                ok = True
                res = self.builtin(a[1], args, kw, node, env, fr, star, dstar)
            elif a[0] == 'bkm':
                ok = True
                res = XS
                if args:
                    res = self.method(fs(*args[0]) if args[0] else BOTTOM, a[2], args[1:], kw, node, env, fr)
            elif a[0] == 'bm':
                ok = True
                res = self.method(fs(a[1]), a[2], args, kw, node, env, fr, star)
            elif a[0] == 'ext':
                ok = True
                res = self.extcall(a[1], args, kw, node, env, fr, star, dstar)
            elif a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                m = self.class_attr_of(a[1], '__call__')
                res = self.call(self.bind(m, a), args, kw, node, env, fr, star, dstar) if m else XS
                ok = True
            elif a[0] == 'o' and self.kind.get(a[1]) == 'propobj':
                res = XS; ok = True
            elif a[0] == 'o' and self.kind.get(a[1]) == 'ext':
                ok = True
                for v in list(args) + list(kw.values()):
                    self.put(a[1], '[]', v)
                res = fs(a)
            elif a[0] == 'o' and self.kind.get(a[1]) == 'partial':
                ok = True
                res = self.call(self.get(a[1], 'func'), [self.get(a[1], '[]')] * 0 + list(args), kw, node, env, fr,
                                list(star) + [self.get(a[1], '[]')], dstar)
            else:
                ok = True
                # calling an opaque value (user supplied callback)
                res = XS
            if isinstance(res, str):
                badmsg = res
                continue
            ok = True
            if res is not None:
                returned = True
                r |= res
        site = (loc(node), getattr(node, 'col_offset', 0))
        if ok:
            self.call_ok.add(site)
        elif badmsg:
            self.call_bad.setdefault(site, (node, badmsg))
        if not r and not returned:
            return XS
        return frozenset(r)

    def instantiate(self, cid, args, kw, node, env, fr, star, dstar):
        node_, mod, bases = self.classes[cid]
        oid = self.alloc('inst', node, fr, cid[1])
        if oid not in self.cls_of:
            self.cls_of[oid] = cid
            self.version += 1
        init = self.class_attr(cid, '__init__')
        a = ('o', oid)
        for m in init:
            if m[0] == 'f':
                res = self.call_func(m[1], a, args, kw, node, env, fr, star, dstar)
                if isinstance(res, str):
                    return res
        if not init and self.ext_bases(cid):
            for v in list(args) + list(kw.values()) + list(star):
                self.put(oid, '[]', v)
        return fs(a)

    def bind_args(self, fn, selfatom, args, kw, node, env, fr, star, dstar):
        """-> dict name->atoms or an error string"""
        a = fn.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        pos = ([selfatom if isinstance(selfatom, frozenset) else fs(selfatom)] if selfatom is not None else []) + list(args)
        b = {}
        extra = list(pos[len(names):])
        for n, v in zip(names, pos):
            b[n] = v
        sv = set()
        for s in star:
            sv |= s
        if star:
            for n in names[len(pos):]:
                if n not in kw:
                    b.setdefault(n, frozenset(sv))
        err = None
        if extra and not a.vararg:
            err = "%s() takes %d positional arguments but %d were given" % (fn.name, len(names), len(pos))
        kwn = [x.arg for x in a.kwonlyargs]
        extrakw = {}
        for k, v in kw.items():
            if k in b and k in names and names.index(k) < len(pos):
                err = err or "%s() got multiple values for argument '%s'" % (fn.name, k)
            if k in names or k in kwn:
                b[k] = v
            else:
                extrakw[k] = v
        dcontent = set(); open_kw = False
        for d in dstar:
            for x in d:
                if x[0] == 'o' and self.kind.get(x[1]) == 'kwdict':
                    for key in self.heap.get((x[1], '$keys'), ()):
                        v = self.get(x[1], ('k', key))
                        if key in names or key in kwn:
                            b[key] = b.get(key, BOTTOM) | v if key in b else v
                        else:
                            extrakw[key] = v
                    if self.heap.get((x[1], '$open')):
                        open_kw = True
                        dcontent |= self.content(x[1])
                else:
                    open_kw = True
                    dcontent |= self.subscript_any(fs(x))
                    ks = self.heap.get((x[1], '$keys'), ()) if x[0] == 'o' else ()
                    for key in ks:
                        if key in names or key in kwn:
                            b[key] = b.get(key, BOTTOM) | self.get(x[1], ('k', key))
        if extrakw and not a.kwarg:
            err = err or "%s() got an unexpected keyword argument '%s'" % (fn.name, sorted(extrakw)[0])
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in b:
                j = i - (len(names) - nd)
                if j >= 0:
                    b[n] = fn.defaults[j] | (frozenset(dcontent) if open_kw else BOTTOM)
                elif open_kw or star:
                    b[n] = frozenset(dcontent | sv) or XS
                else:
                    err = err or "%s() missing required argument '%s'" % (fn.name, n)
                    b[n] = XS
        for n, d in zip(kwn, fn.kwdefaults):
            if n not in b:
                if d is not None:
                    b[n] = d
                else:
                    err = err or "%s() missing keyword-only argument '%s'" % (fn.name, n)
                    b[n] = XS
        if err and not open_kw and not star:
            return err
        if a.vararg:
            if not star:
                b[a.vararg.arg] = self.mktuple(extra, fn.node, fr) if len(extra) <= 6 else self.obj('tuple', fn.node, fr, frozenset().union(*extra))
            else:
                b[a.vararg.arg] = self.obj('tuple', fn.node, fr, frozenset(sv).union(*extra) if extra else frozenset(sv), 'va')
        if a.kwarg:
            oid = self.alloc('kwdict', fn.node, fr, tuple(sorted(extrakw)) + (('**',) if open_kw else ()))
            for k, v in extrakw.items():
                self.put(oid, ('k', k), v)
                self.put(oid, '$keys', {k})
                self.put(oid, '{}', {const(k)})
                self.put(oid, '[]', v)
            if open_kw:
                self.put(oid, '$open', {1})
                self.put(oid, '[]', frozenset(dcontent))
                self.put(oid, '{}', XS)
            b[a.kwarg.arg] = fs(('o', oid))
        return b

    def recv_key(self, a):
        """receivers with the same key are analysed together"""
        if a is None or a[0] != 'o':
            return a if a is not None and a[0] == 'k' else None
        o = a[1]
        if self.origin.get(o) is not None:
            return ('P', self.origin.get(o), self.cls_of.get(o))
        return o.key[:3] + ((o.key[5][:3] if isinstance(o.key[5], tuple) else o.key[5]),) if isinstance(o, Oid) else o

    def call_func(self, fid, selfatom, args, kw, node, env, fr, star=(), dstar=()):
        fn = self.funcs[fid]
        b = self.bind_args(fn, selfatom, args, kw, node, env, fr, star, dstar)
        if isinstance(b, str):
            return b
        hook = self.config.get('intercept')
        if hook is not None:
            h = hook(self, fn, b, node, env, fr)
            if h is not None:
                return h
        for n, v in b.items():
            if not v:
                b[n] = BOTTOM
        callstr = ((fr.ctx.callstr if fr.ctx else ()) + (loc(node),))[-self.K:]
        if isinstance(selfatom, frozenset):
            recv = self.recv_key(next(iter(selfatom)))
        else:
            recv = self.recv_key(selfatom)
        if recv is None and fr.ctx and isinstance(fr.ctx.recv, tuple) and fn.mod is fr.mod:
            recv = fr.ctx.recv      # a helper of a method is analysed per receiver of the method
        disc = tuple((n, frozenset(a for a in v if a[0] in CTXKINDS)) for n, v in b.items())
        key = (fid, disc, callstr, self.phase, recv)
        c = self.contexts.get(key)
        if c is None:
            c = Ctx()
            c.key, c.fn, c.callstr, c.phase, c.recv = key, fn, callstr, self.phase, recv
            c.uid = ('env', len(self.contexts), self.pkg.qual.get(fn.node, fn.name))
            c.args = dict(b)
            self.contexts[key] = c
            self.version += 1
        else:
            for n, v in b.items():
                if not v <= c.args[n]:
                    c.args[n] = c.args[n] | v
                    c.round = -1
                    self.version += 1
        if not c.active and c.round != self.round:
            if len(self.stack) > MAXDEPTH:
                self.depth_hits += 1
                return XS
            c.active = True
            self.stack.append("%s at %s" % (self.pkg.qual.get(fn.node, fn.name), loc(node)))
            self.reached_functions.add(self.pkg.qual.get(fn.node, fn.name + "@" + loc(fn.node)))
            try:
                self.run(c, fn, c.args)
            finally:
                self.stack.pop()
                c.active = False
                c.round = self.round
        if env is not None and c.mut:
            env['$mut'] = env.get('$mut', BOTTOM) | frozenset((o, w, node) for o, w in c.mut)
            fr.ctx.mut |= c.mut
        if fn.is_gen:
            return fs(('o', c.genoid)) if getattr(c, 'genoid', None) else XS
        if c.noreturn and not c.active:
            return None
        return frozenset(c.ret)

    def run(self, c, fn, b):
        self.runs += 1
        if self.budget and self.runs > self.budget:
            raise Budget()
        f = Frame()
        f.ctx, f.fn, f.mod, f.envid, f.loops, f.trystack = c, fn, fn.mod, c.uid, [], []
        f.is_gen = fn.is_gen
        if not hasattr(self, "env_parent"):
            self.env_parent = {}
        self.env_parent[c.uid] = fn.env
        env = {'$mut': BOTTOM}
        for n, v in b.items():
            env[n] = frozenset(v)
            if fn.has_nested:
                self.put(c.uid, n, v)
        f.yields = None
        nret = (len(c.ret), len(c.mut), len(c.srcs), c.noreturn)
        if fn.is_gen:
            c.genoid = self.alloc('iter', fn.node, f, 'gen')
            f.yields = c.genoid
        if isinstance(fn.node, ast.Lambda):
            c.ret |= self.ev(fn.node.body, env, f)
            c.noreturn = False
        else:
            e = self.exec_block(fn.node.body, env, f)
            if e is not None:
                c.ret.add(NONE)
                c.noreturn = False
        if fn.is_gen:
            c.noreturn = False
            self.put(c.genoid, '$srcs', c.srcs)
        if nret != (len(c.ret), len(c.mut), len(c.srcs), c.noreturn):
            self.version += 1

    # -------------------------------------------------------------- builtins
    def clone(self, atoms, node, fr, deep, seen=None):
        seen = {} if seen is None else seen
        r = set()
        for a in atoms:
            if a[0] != 'o':
                r.add(a); continue
            oid = a[1]
            if oid in seen:
                r.add(('o', seen[oid])); continue
            k = self.kind.get(oid)
            nid = self.alloc(k, node, fr, ('copy', oid[1] if isinstance(oid, tuple) and len(oid) > 1 else oid, self.cls_of.get(oid)))
            seen[oid] = nid
            if k == 'inst':
                self.cls_of[nid] = self.cls_of[oid]
            for (o, f), v in list(self.heap.items()):
                if o == oid:
                    if deep and not (isinstance(f, str) and f.startswith('$')):
                        self.put(nid, f, self.clone(frozenset(v), node, fr, True, seen))
                    else:
                        self.put(nid, f, frozenset(v))
            r.add(('o', nid))
        return frozenset(r)

    def apply(self, f, argsets, node, env, fr):
        return self.call(f, argsets, {}, node, env, fr)

    def builtin(self, name, args, kw, node, env, fr, star=(), dstar=()):
        A = list(args)
        if star:
            A = A + [frozenset().union(*star)]
        a0 = A[0] if A else BOTTOM
        it = lambda v: self.iterate(v, node, env, fr)

        def lazy(content, *srcs):
            o = self.obj('iter', node, fr, content, name)
            for s in srcs:
                self.put(next(iter(o))[1], '$srcs', self.sources(s, node, env, fr))
            return o
        if name == 'len':
            r = set()
            for a in a0:
                if a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                    m = self.class_attr_of(a[1], '__len__')
                    if m:
                        r |= self.call(self.bind(m, a), [], {}, node, env, fr)
                    else:
                        r.add(X)
                elif a[0] == 'o' and self.tuple_len(a[1]) is not None:
                    r.add(const(self.tuple_len(a[1])))
                elif a[0] == 'o' and self.kind.get(a[1]) in ('index', 'row'):
                    r |= self.index_hook(self, 'len', a[1], None, None, node, env, fr)
                elif a[0] == 'o' and self.kind.get(a[1]) in ('list', 'set', 'tuple', 'iter', 'dict'):
                    r |= self.scal(self.iterate(fs(a), node, env, fr))
                elif a[0] == 'x':
                    r.add(a)
                else:
                    r.add(X)
            return frozenset(r) or XS
        if name in ('list', 'tuple', 'set', 'frozenset', 'sorted'):
            kind = {'sorted': 'list', 'frozenset': 'frozenset'}.get(name, name)
            c = it(a0) if A else BOTTOM
            if 'key' in kw:
                self.apply(kw['key'], [c], node, env, fr)
            if name == 'tuple' and len(a0) == 1:
                a = next(iter(a0))
                if a[0] == 'o' and self.tuple_len(a[1]) is not None:
                    return a0
            return self.obj(kind, node, fr, c, name)
        if name == 'dict':
            o = self.obj('dict', node, fr)
            oid = next(iter(o))[1]
            for a in a0:
                if a[0] == 'o' and self.kind.get(a[1]) in ('dict', 'kwdict'):
                    for fld in ('{}', '[]'):
                        self.put(oid, fld, self.get(a[1], fld))
                elif a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                    self.put(oid, '{}', self.iterate(fs(a), node, env, fr))
                    self.put(oid, '[]', self.subscript(fs(a), XS, node, env, fr))
                else:
                    pairs = self.iterate(fs(a), node, env, fr)
                    for p in pairs:
                        if p[0] == 'o' and self.tuple_len(p[1]) == 2:
                            self.put(oid, '{}', self.get(p[1], 0)); self.put(oid, '[]', self.get(p[1], 1))
                        elif p[0] == 'o':
                            self.put(oid, '{}', self.content(p[1])); self.put(oid, '[]', self.content(p[1]))
                        else:
                            self.put(oid, '{}', XS); self.put(oid, '[]', XS)
            for k, v in kw.items():
                self.put(oid, '{}', {const(k)}); self.put(oid, '[]', v)
                self.put(oid, ('k', k), v); self.put(oid, '$keys', {k})
            return o
        if name in ('iter', 'reversed'):
            return lazy(it(a0), a0)
        if name == 'enumerate':
            return lazy(self.mktuple([XS, it(a0)], node, fr), a0)
        if name == 'zip':
            if star:
                c = frozenset().union(*[it(x) for x in A]) if A else BOTTOM
                return lazy(self.obj('tuple', node, fr, c, 'zip'))
            return lazy(self.mktuple([it(x) for x in A], node, fr), *A)
        if name == 'map':
            r = self.apply(a0, [it(x) for x in A[1:]], node, env, fr)
            return lazy(r, *A[1:])
        if name == 'filter':
            c = it(A[1]) if len(A) > 1 else BOTTOM
            if a0 != fs(NONE):
                self.apply(a0, [c], node, env, fr)
            return lazy(c, *A[1:2])
        if name in ('sum', 'min', 'max', 'any', 'all', 'next'):
            c = it(a0) if len(A) == 1 or name in ('sum', 'next') else frozenset().union(*A)
            if 'key' in kw:
                self.apply(kw['key'], [c], node, env, fr)
            if name in ('any', 'all'):
                return BOOLS
            if name == 'sum':
                objs = frozenset(a for a in c if a[0] == 'o')
                return self.scal(c) | objs if objs else self.scal(c)
            if name == 'next':
                return c | (A[1] if len(A) > 1 else BOTTOM) or XS
            return c | (kw.get('default') or BOTTOM) or XS
        if name == 'isinstance':
            if len(A) < 2:
                return BOOLS
            r = set()
            for a in a0:
                v = self._isinst(a, A[1])
                r |= BOOLS if v is None else {TRUE if v else FALSE}
            return frozenset(r) or BOOLS
        if name == 'issubclass' or name == 'callable':
            return BOOLS
        if name == 'type':
            r = set()
            for a in a0:
                if a[0] == 'o' and self.kind.get(a[1]) == 'inst':
                    r.add(('k', self.cls_of[a[1]]))
                elif a[0] == 'o' and self.kind.get(a[1]) in PYTYPE:
                    r.add(('bk', self.kind[a[1]]))
                elif a[0] == 'c' and a[1] in BUILTIN_CLASSES:
                    r.add(('bk', a[1]))
                else:
                    r.add(X)
            return frozenset(r) or XS
        if name == 'getattr':
            ns = [a[2] for a in (A[1] if len(A) > 1 else ()) if a[0] == 'c' and a[1] == 'str']
            if ns and len(A[1]) == len(ns):
                r = set()
                for n in ns:
                    for a in a0:
                        v = self.getattr1(a, n, node, env, fr)
                        if v:
                            r |= v
                if len(A) > 2:
                    r |= A[2]
                return frozenset(r) or XS
            return XS
        if name == 'hasattr':
            return BOOLS
        if name == 'setattr':
            for a in a0:
                ns = [x[2] for x in A[1] if x[0] == 'c'] if len(A) > 1 else []
                self.setattr_atom(a, ns[0] if len(ns) == 1 else '?', A[2] if len(A) > 2 else XS, node, env, fr)
            return fs(NONE)
        if name == 'delattr':
            for a in a0:
                if a[0] == 'o':
                    self.mutate(a[1], 'delattr', node, fr, env, '?')
            return fs(NONE)
        if name == 'property':
            r = set()
            for a in a0:
                if a[0] == 'f':
                    r.add(('prop', a[1]))
                elif a[0] == 'k':
                    r.add(('propcls', a))
            return frozenset(r) or XS
        if name == 'super':
            return self.superobj(A, node, env, fr)
        if name == 'open':
            return self.obj('ext', node, fr, None, 'file')
        if name == 'range':
            return lazy(XS)
        if name in ('vars', 'globals', 'locals', 'dir'):
            r = set()
            return XS
        if name == 'print':
            return fs(NONE)
        if name == 'bool' and A:
            t, f = self.truth(a0)
            return frozenset(([TRUE] if t else []) + ([FALSE] if f else []))
        if name == 'int' and A and all(a[0] == 'c' and a[1] == 'int' for a in a0) and a0:
            return a0
        if name in ('str', 'repr', 'hash', 'id', 'format'):
            return XS
        if name == 'object':
            return self.obj('ext', node, fr, None, 'object')
        if hasattr(builtins, name) and isinstance(getattr(builtins, name), type) and \
                issubclass(getattr(builtins, name), BaseException):
            return XS
        return self.scal(*A) if A else XS

    def superobj(self, A, node, env, fr):
        # super().m / super(C,self).m : returns a proxy resolved in the bases
        selfatoms = BOTTOM
        if len(A) > 1:
            selfatoms = A[1]
            cids = [a[1] for a in A[0] if a[0] == 'k']
        else:
            fnode = fr.fn.node if fr.fn else None
            cls = enclosing_class(fnode) if fnode is not None else None
            cids = [('cls', self.pkg.qual.get(cls))] if cls is not None else []
            ps = fnode.args.args if fnode is not None else []
            if ps:
                selfatoms = env.get(ps[0].arg, BOTTOM)
        r = set()
        for s in selfatoms:
            for c in cids:
                r.add(('super', c, s))
        oid = self.alloc('super', node, fr)
        self.put(oid, '$super', r)
        return fs(('o', oid)) if r else XS

    def method(self, selfs, name, args, kw, node, env, fr, star=()):
        r = set()
        for a in selfs:
            r |= self.method1(a, name, args, kw, node, env, fr, star)
        return frozenset(r)

    def method1(self, a, name, args, kw, node, env, fr, star=()):
        A = list(args) + ([frozenset().union(*star)] if star else [])
        it = lambda v: self.iterate(v, node, env, fr)
        if a[0] != 'o':
            if name == 'join' and A:
                it(A[0])
            return self.scal(fs(a)) if a[0] == 'x' else (self.obj('list', node, fr, XS, 'split') if name in ('split', 'rsplit', 'splitlines') else XS)
        oid = a[1]
        k = self.kind.get(oid)
        if k == 'super':
            r = set()
            for s in self.heap.get((oid, '$super'), ()):
                found = False
                if s[2][0] == 'o' and self.kind.get(s[2][1]) == 'inst':
                    mro = self.mro(self.cls_of[s[2][1]])
                    if s[1] in mro:
                        mro = mro[mro.index(s[1]) + 1:]
                    for c in mro:
                        v = self.heap.get((c, name))
                        if v:
                            r |= self.call(self.bind(frozenset(v), s[2]), args, kw, node, env, fr, star)
                            found = True
                            break
                    if not found:
                        for v in args:
                            self.put(s[2][1], '[]', v)
            return frozenset(r) or XS
        if k == 'inst':
            # method inherited from an external base class
            if name in ('items', 'values', 'keys', '__contains__', 'get', '__iter__'):
                ks = self.iterate(fs(a), node, env, fr)
                vs = self.subscript(fs(a), ks or XS, node, env, fr)
                if name == 'keys' or name == '__iter__':
                    return self.obj('iter', node, fr, ks, name)
                if name == 'values':
                    return self.obj('iter', node, fr, vs, name)
                if name == 'items':
                    return self.obj('iter', node, fr, self.mktuple([ks, vs], node, fr), name)
                if name == 'get':
                    return vs | (A[1] if len(A) > 1 else fs(NONE))
                return BOOLS
            if name in ('update', 'setdefault'):
                m = self.class_attr_of(oid, '__setitem__')
                if m:
                    v = frozenset().union(*[self.subscript_any(x) for x in A]) if A else XS
                    self.call(self.bind(m, a), [XS, v], {}, node, env, fr)
                return XS
            if name in ('pop', 'popitem', 'clear'):
                m = self.class_attr_of(oid, '__delitem__')
                if m:
                    self.call(self.bind(m, a), [XS], {}, node, env, fr)
                return XS
            if name == '__init__':
                return fs(NONE)
            return XS
        if k in ('dict', 'kwdict'):
            keys, vals = self.get(oid, '{}'), self.get(oid, '[]')
            if name == 'get':
                r = vals | (A[1] if len(A) > 1 else fs(NONE))
                if k == 'kwdict' and len(A) > 0 and len(A[0]) == 1 and not self.heap.get((oid, '$open')):
                    key = next(iter(A[0]))
                    if key[0] == 'c':
                        if key[2] in self.heap.get((oid, '$keys'), ()):
                            return self.get(oid, ('k', key[2]))
                        return A[1] if len(A) > 1 else fs(NONE)
                return r
            if name in ('items', 'iteritems'):
                o = self.obj('iter', node, fr, self.mktuple([keys, vals], node, fr), name)
                self.put(next(iter(o))[1], '$srcs', {oid})
                return o
            if name in ('keys', 'values', 'iterkeys', 'itervalues'):
                o = self.obj('iter', node, fr, keys if 'key' in name else vals, name)
                self.put(next(iter(o))[1], '$srcs', {oid})
                return o
            if name == 'setdefault':
                self.mutate(oid, 'setdefault', node, fr, env, name)
                self.put(oid, '{}', A[0] if A else XS)
                self.put(oid, '[]', A[1] if len(A) > 1 else fs(NONE))
                return self.get(oid, '[]')
            if name in ('pop', 'popitem'):
                self.mutate(oid, name, node, fr, env, name)
                if name == 'popitem':
                    return self.mktuple([keys, vals], node, fr)
                if k == 'kwdict' and len(A) > 0 and len(A[0]) == 1 and not self.heap.get((oid, '$open')):
                    key = next(iter(A[0]))
                    if key[0] == 'c':
                        if key[2] in self.heap.get((oid, '$keys'), ()):
                            return self.get(oid, ('k', key[2]))
                        return A[1] if len(A) > 1 else XS
                return vals | (A[1] if len(A) > 1 else BOTTOM)
            if name == 'update':
                self.mutate(oid, name, node, fr, env, name)
                for v in A:
                    for x in v:
                        if x[0] == 'o' and self.kind.get(x[1]) in ('dict', 'kwdict'):
                            self.put(oid, '{}', self.get(x[1], '{}')); self.put(oid, '[]', self.get(x[1], '[]'))
                        else:
                            c = self.iterate(fs(x), node, env, fr)
                            self.put(oid, '{}', c or XS); self.put(oid, '[]', c or XS)
                for kk, v in kw.items():
                    self.put(oid, '{}', {const(kk)}); self.put(oid, '[]', v)
                return fs(NONE)
            if name == 'clear':
                self.mutate(oid, name, node, fr, env, name)
                return fs(NONE)
            if name == 'copy':
                o = self.obj('dict', node, fr, vals, 'copy')
                self.put(next(iter(o))[1], '{}', keys)
                return o
            return XS
        if k in ('list', 'set', 'tuple', 'iter', 'frozenset'):
            c = self.content(oid)
            if name in MUTATORS.get(k, ()) or (k == 'iter' and name in ANY_MUTATOR):
                self.mutate(oid, name, node, fr, env, name)
                if name in ('append', 'add', 'appendleft'):
                    self.put(oid, '[]', A[0] if A else XS)
                elif name == 'insert':
                    self.put(oid, '[]', A[1] if len(A) > 1 else XS)
                elif name in ('extend', 'update', 'symmetric_difference_update'):
                    for v in A:
                        self.put(oid, '[]', it(v))
                elif name == 'pop':
                    return c or XS
                elif name == 'sort' and 'key' in kw:
                    self.apply(kw['key'], [c], node, env, fr)
                return fs(NONE)
            if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                cc = set(c)
                if name in ('union', 'symmetric_difference'):
                    for v in A:
                        cc |= it(v)
                else:
                    for v in A:
                        it(v)
                return self.obj(k, node, fr, cc, name)
            if name == 'split':
                return self.obj('list', node, fr, XS, name)
            if name in ('__iter__', '__next__', 'next'):
                if name == '__iter__':
                    o = self.obj('iter', node, fr, c, name)
                    self.put(next(iter(o))[1], '$srcs', {oid})
                    return o
                return c
            return XS
        if k == 'param':
            if name in ANY_MUTATOR or name in self.config.get('net_mutators', ()):
                self.mutate(oid, name, node, fr, env, name)
            for v in list(A) + list(kw.values()):
                for x in v:
                    if x[0] in ('f', 'bf'):
                        self.call(fs(x), [fs(a)], {}, node, env, fr)
            if name in ('copy', 'split', 'deepcopy', 'tolist', 'union', 'intersection', 'difference'):
                return self.obj('list', node, fr, fs(a), name)
            return fs(a)
        if k == 'ext':
            if self.config.get('ext_method'):
                self.config['ext_method'](self, oid, name, A, kw, node, env, fr)
            if name in ANY_MUTATOR:
                self.mutate(oid, name, node, fr, env, name)
            for v in list(A) + list(kw.values()):
                cb = frozenset(x for x in v if x[0] in ('f', 'bf'))
                if cb:
                    self.call(cb, [XS], {}, node, env, fr)
                self.put(oid, '[]', frozenset(x for x in v if x[0] == 'o'))
            return fs(a)
        if k in ('index', 'row'):
            return self.index_hook(self, 'method:' + name, oid, A, kw, node, env, fr)
        return XS

    def extcall(self, name, args, kw, node, env, fr, star=(), dstar=()):
        A = list(args) + ([frozenset().union(*star)] if star else [])
        it = lambda v: self.iterate(v, node, env, fr)
        self.ext_calls.setdefault(name, set()).add(loc(node))
        base = name.rpartition('.')[2]
        a0 = A[0] if A else BOTTOM
        if name.startswith('itertools.'):
            if base == 'product':
                if star:
                    c = frozenset().union(*[it(x) for x in A[:-1]], A[-1] and frozenset().union(*[it(fs(z)) for z in A[-1]]) or BOTTOM)
                    return self.obj('iter', node, fr, self.obj('tuple', node, fr, c, 'prod'), 'product')
                if kw.get('repeat'):
                    c = frozenset().union(*[it(x) for x in A]) if A else BOTTOM
                    return self.obj('iter', node, fr, self.obj('tuple', node, fr, c, 'prod'), 'product')
                return self.obj('iter', node, fr, self.mktuple([it(x) for x in A], node, fr), 'product')
            if base in ('combinations', 'permutations', 'combinations_with_replacement'):
                return self.obj('iter', node, fr, self.obj('tuple', node, fr, it(a0), 'comb'), base)
            if base == 'chain' or base == 'from_iterable':
                c = set()
                for x in A[:len(args)]:
                    c |= it(x)
                for x in A[len(args):]:
                    c |= frozenset().union(*[it(fs(z)) for z in x]) if x else BOTTOM
                if base == 'from_iterable':
                    c = frozenset().union(*[it(fs(z)) for z in c]) if c else BOTTOM
                o = self.obj('iter', node, fr, c, base)
                for x in A:
                    self.put(next(iter(o))[1], '$srcs', self.sources(x, node, env, fr))
                return o
            c = set()
            for x in A:
                fn_ = frozenset(z for z in x if z[0] in ('f', 'bf'))
                if fn_:
                    for y in A:
                        if y is not x:
                            self.apply(fn_, [it(y)], node, env, fr)
                else:
                    c |= it(x)
            return self.obj('iter', node, fr, c, base)
        if name == 'functools.reduce':
            c = it(A[1]) if len(A) > 1 else BOTTOM
            init = A[2] if len(A) > 2 else BOTTOM
            r = self.apply(a0, [c | init, c], node, env, fr)
            r2 = self.apply(a0, [r | init | c, c], node, env, fr)
            return r | r2 | init
        if name == 'functools.partial':
            oid = self.alloc('partial', node, fr)
            self.put(oid, 'func', a0)
            for v in A[1:]:
                self.put(oid, '[]', v)
            return fs(('o', oid))
        if name == 'functools.wraps':
            return XS
        if name == 'copy.copy':
            return self.clone(a0, node, fr, False)
        if name == 'copy.deepcopy':
            return self.clone(a0, node, fr, True)
        if name == 'collections.defaultdict':
            o = self.obj('dict', node, fr)
            oid = next(iter(o))[1]
            if a0 and a0 != fs(NONE):
                self.put(oid, '[]', self.apply(a0, [], node, env, fr))
                self.put(oid, '$default', {1})
            for x in A[1:]:
                self.put(oid, '[]', self.subscript_any(x)); self.put(oid, '{}', it(x))
            return o
        if name in ('collections.OrderedDict', 'collections.Counter'):
            o = self.builtin('dict', A, kw, node, env, fr)
            for x in o:
                self.put(x[1], '$sub', {1})
            return o
        if name == 'collections.deque':
            o = self.obj('list', node, fr, it(a0) if A else BOTTOM, 'deque')
            for x in o:
                self.put(x[1], '$sub', {1})
            return o
        if name in ('random.shuffle', 'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heappushpop',
                    'heapq.heapreplace', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right',
                    'numpy.fill_diagonal', 'numpy.random.shuffle', 'numpy.put', 'numpy.copyto', 'numpy.place'):
            c = set()
            for a in a0:
                if a[0] == 'o':
                    op = {'heapq.heappop': 'pop', 'heapq.heappush': 'append'}.get(name, 'sort')
                    self.mutate(a[1], op, node, fr, env, name)
                    if name in ('heapq.heappush', 'heapq.heappushpop', 'heapq.heapreplace') and len(A) > 1:
                        self.put(a[1], '[]', A[1])
                    c |= self.content(a[1])
            if name in ('heapq.heappop', 'heapq.heappushpop', 'heapq.heapreplace'):
                return frozenset(c) or XS
            return fs(NONE)
        if name in ('random.choice', 'numpy.random.choice'):
            return it(a0) or XS
        if name == 'random.sample':
            return self.obj('list', node, fr, it(a0), 'sample')
        if name.startswith('random.') or name.startswith('math.'):
            return self.scal(*A) if A else XS
        if name in ('os.path.join', 'os.path.exists', 'json.dumps', 'pickle.dumps', 'time.time', 'os.path.dirname'):
            return XS
        # generic external call: result is a fresh external object that may hold its arguments
        for v in list(A) + list(kw.values()):
            cb = frozenset(x for x in v if x[0] in ('f', 'bf'))
            if cb:
                self.call(cb, [XS], {}, node, env, fr)
        o = self.obj('ext', node, fr, None, name)
        oid = next(iter(o))[1]
        for v in list(A) + list(kw.values()) + list(dstar):
            self.put(oid, '[]', frozenset(x for x in v if x[0] == 'o'))
        return o

    # ----------------------------------------------------------------- drive
    def toplevel_frame(self, modname, label):
        f = Frame()
        c = Ctx(); c.callstr = (label,); c.recv = None; c.phase = self.phase; c.uid = ('env', label, self.phase); c.key = label; c.fn = None
        f.ctx, f.fn, f.mod, f.envid, f.yields, f.loops, f.is_gen, f.trystack = c, _Top(), self.pkg.modules[modname], c.uid, None, [], False, []
        return f

    def fixpoint(self, thunk, limit=25):
        """run thunk until the heap and all summaries are stable"""
        r = None
        for i in range(limit):
            self.round += 1
            v0 = self.version
            r = thunk()
            if self.version == v0:
                return r
        self.depth_hits += 1
        return r

    def reachable(self, atoms, stop=()):
        seen, todo = set(), [a[1] for a in atoms if a[0] == 'o']
        idx = defaultdict(list)
        for (o, f), v in self.heap.items():
            idx[o].append(v)
        while todo:
            o = todo.pop()
            if o in seen or o in stop:
                continue
            seen.add(o)
            for v in idx.get(o, ()):
                for a in v:
                    if isinstance(a, tuple) and a and a[0] == 'o' and a[1] not in seen:
                        todo.append(a[1])
        return seen


class _Top(object):
    """pseudo function of an analysis entry point"""
    locals = frozenset(); globals_ = frozenset(); env = None; has_nested = False; node = None; name = "<entry>"


class _ClassScope(object):
    def __init__(self, fn):
        self.fn = fn
        self.locals = frozenset(); self.globals_ = frozenset(); self.has_nested = False
        self.node = getattr(fn, 'node', None)
        self.env = getattr(fn, 'env', None)


def _locals_of(node):
    a = node.args
    for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs:
        yield x.arg
    if a.vararg:
        yield a.vararg.arg
    if a.kwarg:
        yield a.kwarg.arg
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            yield n.name
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                yield (al.asname or al.name).split('.')[0]
        if isinstance(n, ast.ExceptHandler) and n.name:
            yield n.name
        todo.extend(ast.iter_child_nodes(n))


def _as_load(t):
    import copy as cp
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    elif isinstance(t, ast.Subscript):
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    elif isinstance(t, (ast.Tuple, ast.List)):
        n = ast.Tuple(elts=[_as_load(x) for x in t.elts], ctx=ast.Load())
    else:
        n = t
    ast.copy_location(n, t)
    n._mod = getattr(t, "_mod", None)
    n._parent = getattr(t, "_parent", None)
    return n
