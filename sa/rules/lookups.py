"""P10: no operation ends in an internal lookup failure: names, attributes of the
library's own classes and modules, and argument lists resolve wherever they are
used; abstract operations raise NotImplementedError."""
import ast, builtins
from ..scopes import Scopes, FUNCS, COMPS, BUILTINS
from ..model import loc, enclosing_class, enclosing_function

LEVEL = "other"
PY2 = {"has_key", "iteritems", "itervalues", "iterkeys", "viewitems", "viewkeys", "viewvalues"}
LAZY = {"map", "filter", "zip", "reversed", "enumerate", "iter"}
OBJ = set(dir(object)) | {"__dict__", "__class__", "__name__", "__module__", "__qualname__", "__weakref__"}


def fname(pkg, n):
    f = n if n in pkg.qual else enclosing_function(n)
    while f is not None and f not in pkg.qual:
        f = enclosing_function(f)
    return pkg.qual.get(f, n._mod.name)


def catches(n, names):
    """an enclosing try handles one of the exceptions (or everything)"""
    c, p = n, n._parent
    while p is not None and not isinstance(p, FUNCS):
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                if h.type is None:
                    return True
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    x = t.id if isinstance(t, ast.Name) else getattr(t, "attr", "")
                    if x in names or x in ("Exception", "BaseException"):
                        return True
        c, p = p, getattr(p, "_parent", None)
    return False


class Checker(object):
    def __init__(self, pkg, res):
        self.pkg, self.res, self.sc = pkg, res, Scopes(pkg)
        self.n = {}

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def report(self, kind, what, node, msg):
        f = fname(self.pkg, node)
        if kind == "name":
            self.res.add("name:%s:%s" % (node._mod.name, what), msg, loc(node), f)
            return
        self.res.add("%s:%s:%s" % (kind, f, what), msg, loc(node), f)

    # ------------------------------------------------ names
    def names(self):
        for m in self.pkg.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.count("names_resolved")
                    if self.sc.lookup(n) is None and not catches(n, {"NameError"}):
                        self.report("name", n.id, n, "the name %s is not defined anywhere it is visible from here" % n.id)
                if isinstance(n, ast.ImportFrom):
                    from ..scopes import import_target
                    t = import_target(m, n)
                    if t.split(".")[0] == self.pkg.root or n.level:
                        if t not in self.pkg.modules:
                            if not catches(n, {"ImportError", "ModuleNotFoundError"}):
                                self.report("import", t, n, "the module %s does not exist" % t)
                            continue
                    for a in n.names:
                        self.count("imported_names")
                        if a.name != "*" and self.sc.member(t, a.name) is None and t + "." + a.name not in self.pkg.modules \
                                and not catches(n, {"ImportError", "ModuleNotFoundError"}):
                            self.report("import", t + "." + a.name, n, "the module %s has no member %s" % (t, a.name))

    # ------------------------------------------------ unbound locals
    def unbound(self):
        for s in list(self.sc.local):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                Unbound(self, s).run()

    # ------------------------------------------------ attributes
    def attributes(self):
        # calls through functions hide the receiver: x = self in a closure is not followed
        for m in self.pkg.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                    continue
                if catches(n, {"AttributeError"}):
                    continue
                v = n.value
                if isinstance(v, ast.Name):
                    r = self.sc.expr(v)
                    if r and all(b[0] == "mod" for b in r):
                        self.count("module_members")
                        if all(self.sc.member(b[1], n.attr) is None and b[1] + "." + n.attr not in self.pkg.modules for b in r):
                            self.report("member", "%s.%s" % (v.id, n.attr), n, "the module %s has no member %s" % (r[0][1], n.attr))
                            continue
                    cls = self.receiver(v)
                    if cls is not None:
                        self.count("receiver_attributes")
                        if not self.has_attr(cls, n.attr):
                            self.report("attr", "self." + n.attr, n, "objects of class %s have no attribute %s" % (cls.name, n.attr))
                        continue
                if n.attr in PY2 and n.attr not in self.all_attrs():
                    self.report("py2", n.attr, n, "dictionaries have no method %s in Python 3" % n.attr)

    def receiver(self, v):
        """the class whose methods a name is the receiver of"""
        r = self.sc.lookup(v)
        if r is None or isinstance(r[0], str):
            return None
        s, bs = r
        if isinstance(s, ast.FunctionDef) and isinstance(s._parent, ast.ClassDef) and s.args.args and s.args.args[0].arg == v.id \
                and len(bs) == 1 and not any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in s.decorator_list):
            return s._parent
        return None

    _attrs = None

    def all_attrs(self):
        if self._attrs is None:
            self._attrs = set()
            for c in self.pkg.classes.values():
                self._attrs |= self.sc.class_names(c)
        return self._attrs

    def has_attr(self, cls, a):
        if a in OBJ:
            return True
        for c in [cls] + self.sc.subclasses(cls):
            mro, known = self.sc.mro(c)
            if not known:
                return True
            for k in mro:
                if a in self.sc.class_names(k) or a in self.sc.self_attrs(k) or "__getattr__" in self.sc.class_names(k) \
                        or "__getattribute__" in self.sc.class_names(k):
                    return True
        # attributes stored from outside: x.attr = ... anywhere in the package
        if a in self.stored_elsewhere():
            return True
        return False

    _stored = None

    def stored_elsewhere(self):
        if self._stored is None:
            self._stored = set()
            for m in self.pkg.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and self.receiver(n.value)):
                        self._stored.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                        if isinstance(n.args[1], ast.Constant):
                            self._stored.add(n.args[1].value)
        return self._stored

    # ------------------------------------------------ calls
    def calls(self):
        for m in self.pkg.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    self.call(n)
                if isinstance(n, ast.Raise) and n.exc is not None:
                    self.count("raise_statements")
                    e = n.exc
                    t = e.func if isinstance(e, ast.Call) else e
                    if isinstance(t, ast.Name) and isinstance(getattr(builtins, t.id, None), object) and self.sc.lookup(t) and self.sc.lookup(t)[0] == "builtin":
                        v = getattr(builtins, t.id, None)
                        if not (isinstance(v, type) and issubclass(v, BaseException)):
                            self.report("raise", t.id, n, "%s is not an exception" % t.id)
                    elif isinstance(e, (ast.Constant, ast.JoinedStr, ast.BinOp)):
                        self.report("raise", "value", n, "only exceptions can be raised")

    def call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "NotImplemented":
            self.report("call", "NotImplemented", n, "NotImplemented cannot be called (NotImplementedError is the exception)")
            return
        targets, skip = None, 0
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            cls = self.receiver(f.value)
            if cls is not None:
                fam = [cls] + self.sc.subclasses(cls)
                targets = []
                for c in fam:
                    mro, known = self.sc.mro(c)
                    d = [k for k in mro if f.attr in self.sc.class_names(k)]
                    if not known or not d or any(f.attr in self.sc.self_attrs(k) for k in mro):
                        return
                    b = self.sc.local[d[0]][f.attr]
                    if len(b) != 1 or b[0][0] != "def" or b[0][1].decorator_list:
                        return
                    targets.append((b[0][1], 1, True))
                # the call must fit at least the class itself or one subclass
        if targets is None:
            r = self.sc.expr(f)
            if not r:
                return
            targets = []
            for b in r:
                if b[0] == "def" and not b[1].decorator_list and not isinstance(b[1]._parent, ast.ClassDef):
                    targets.append((b[1], 0, True))
                elif b[0] == "class" and not b[1].decorator_list:
                    mro, known = self.sc.mro(b[1])
                    if not known:
                        return
                    d = [k for k in mro if "__init__" in self.sc.class_names(k) or "__new__" in self.sc.class_names(k)]
                    if not d or "__new__" in self.sc.class_names(d[0]):
                        return
                    i = self.sc.local[d[0]]["__init__"]
                    if i[0][0] != "def":
                        return
                    targets.append((i[0][1], 1, True))
                else:
                    return
        if not targets:
            return
        self.count("calls_checked")
        errs = [arity(n, fn, skip) for fn, skip, _ in targets]
        if all(errs) and not catches(n, {"TypeError"}):
            self.report("arity", ast.unparse(f), n, "%s is called with arguments it does not take: %s" % (ast.unparse(f), errs[0]))

    # ------------------------------------------------ lazy iterators and format strings
    def values(self):
        for m in self.pkg.modules.values():
            for n in ast.walk(m.tree):
                e = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1 and self.builtin(n.func):
                    e, what = n.args[0], "len() of"
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    e, what = n.value, "indexing"
                elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    self.format(n)
                    continue
                if e is None:
                    continue
                self.count("length_and_index_operations")
                k = self.lazy(e)
                if k and not catches(n, {"TypeError"}):
                    self.report("lazy", what + " " + k, n, "%s the result of %s, which is a one-shot iterator" % (what, k))

    def builtin(self, n):
        r = self.sc.lookup(n)
        return r is not None and r[0] == "builtin"

    def lazy(self, e, depth=0):
        """the expression certainly is an iterator without length"""
        if isinstance(e, ast.GeneratorExp):
            return "a generator expression"
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in LAZY and self.builtin(e.func):
                return e.func.id + "()"
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "values", "items") and not e.args and depth == 0 and \
                    isinstance(e._parent, ast.Subscript) and e._parent.value is e and e.func.attr not in self.all_attrs():
                return "." + e.func.attr + "()"
            r = self.sc.expr(e.func)
            if r and all(b[0] == "def" and generator(b[1]) for b in r):
                return "the generator function " + ast.unparse(e.func)
            return None
        if isinstance(e, ast.Name) and depth < 3:
            r = self.sc.lookup(e)
            if r is None or isinstance(r[0], str) or not r[1] or isinstance(r[0], (ast.Module, ast.ClassDef)):
                return None
            ks = []
            for b in r[1]:
                if b[0] != "value" or not isinstance(b[1], ast.Name):
                    return None
                p = b[1]._parent
                if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is b[1]):
                    return None
                k = self.lazy(p.value, depth + 1)
                if not k:
                    return None
                ks.append(k)
            return ks[0]
        return None

    def format(self, n):
        s = n.left.value
        import re
        if "%(" in s:
            return
        k = 0
        for g in re.finditer(r"%(%|[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[a-zA-Z])", s):
            if g.group(1) != "%":
                k += 1 + g.group(0).count("*")
        self.count("format_strings")
        if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
            if len(n.right.elts) != k:
                self.report("format", s[:30], n, "a format string with %d fields is given %d values" % (k, len(n.right.elts)))
        elif isinstance(n.right, (ast.Constant, ast.Call)) and k == 0:
            self.report("format", s[:30], n, "a format string without fields is given a value")


def generator(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)) and enclosing_function(n) is fn:
            return True
    return False


def arity(call, fn, skip):
    """why a call cannot be bound to a function; None when it can"""
    a = fn.args
    pos = (getattr(a, "posonlyargs", []) + a.args)[skip:]
    names = [x.arg for x in pos]
    kwonly = [x.arg for x in a.kwonlyargs]
    if any(isinstance(x, ast.Starred) for x in call.args):
        star = True
    else:
        star = False
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return "%d positional arguments for %d parameters" % (npos, len(pos))
    given = set(names[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return "two values for %s" % k.arg
        if k.arg not in names + kwonly and not a.kwarg:
            return "no parameter %s" % k.arg
        given.add(k.arg)
    if star or dstar:
        return None
    nd = len(a.defaults)
    req = names[:len(names) - nd] if nd else names
    if nd > len(names):
        req = []
    for r in req:
        if r not in given:
            return "no value for %s" % r
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return "no value for %s" % x.arg
    return None


class Unbound(object):
    """forward dataflow: which local names may have been assigned"""

    def __init__(self, ck, fn):
        self.ck, self.fn = ck, fn
        self.locals = {k for k, b in ck.sc.local[fn].items() if not any(x[0] == "param" for x in b)}

    def run(self):
        if not self.locals:
            return
        self.block(self.fn.body, set())

    def assigned(self, n):
        r = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                r.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                r.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                r |= {(a.asname or a.name).split(".")[0] for a in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                r.add(x.name)
        return r & self.locals

    def use(self, n, may):
        if n is None:
            return
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.locals:
                s = self.ck.sc.scope_of(x)
                while isinstance(s, COMPS) and x.id not in self.ck.sc.local[s]:
                    s = self.ck.sc.outer(s)
                if s is not self.fn:
                    continue
                self.ck.count("local_uses")
                if x.id not in may and x.id not in self.assigned(n) and not catches(x, {"NameError", "UnboundLocalError"}):
                    self.ck.report("unbound", x.id, x, "the local variable %s is used before anything was assigned to it" % x.id)

    def block(self, stmts, may):
        for s in stmts:
            may = self.stmt(s, may)
        return may

    def stmt(self, s, may):
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, may)
            may = may | self.assigned(s)
            self.block(s.body, may)
            return self.block(s.orelse, may)
        if isinstance(s, ast.While):
            may = may | self.assigned(s)
            self.use(s.test, may)
            self.block(s.body, may)
            return self.block(s.orelse, may)
        if isinstance(s, ast.If):
            self.use(s.test, may)
            may = may | self.assigned(s.test)
            return self.block(s.body, may) | self.block(s.orelse, may)
        if isinstance(s, ast.Try):
            b = self.block(s.body, may)
            b2 = may | b
            for x in s.body:
                b2 = b2 | self.assigned(x)
            out = self.block(s.orelse, b)
            for h in s.handlers:
                out = out | self.block(h.body, b2 | ({h.name} if h.name else set()))
            return self.block(s.finalbody, out | b2)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, may)
            may = may | self.assigned_items(s)
            return self.block(s.body, may)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return may | ({s.name} & self.locals)
        if isinstance(s, ast.Assign):
            self.use(s.value, may)
            return may | self.assigned(s)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in may:
                self.ck.report("unbound", s.target.id, s, "the local variable %s is changed before anything was assigned to it" % s.target.id)
            self.use(s.value, may)
            return may | self.assigned(s)
        self.use(s, may)
        return may | self.assigned(s)

    def assigned_items(self, s):
        r = set()
        for i in s.items:
            if i.optional_vars is not None:
                r |= self.assigned(i.optional_vars)
        return r


def receivers(pkg, tier, res, c):
    """attribute and call sites for which the points-to analysis finds no receiver that fits"""
    from .effects import base, short
    from .mutation import run
    I = base(2 if tier == "quick" else 3)
    I.config["lookups"] = True
    try:
        rs = run(pkg, tier)
    finally:
        I.config.pop("lookups")
    aok, cok, abad, cbad = set(), set(), {}, {}
    for r in rs:
        aok |= r["attr_ok"]
        cok |= r["call_ok"]
        for k, v in r["attr_bad"].items():
            abad.setdefault(k, (r["entry"], v))
        for k, v in r["call_bad"].items():
            cbad.setdefault(k, (r["entry"], v))
    c.n["entry_points"] = len(rs)
    c.n["attribute_sites_with_receivers"] = len(aok)
    c.n["call_sites_with_targets"] = len(cok)
    handlers = guarded(pkg)
    for k, (e, v) in sorted(abad.items()):
        where = k[0]
        if k not in aok and where not in handlers:
            res.add("receiver:%s:%s" % (where.rpartition(":")[0], k[2]), "the attribute %s does not exist on any object that reaches this place (%s), reached from %s with a %s network" % (
                k[2], ", ".join(v), e[1], short(e[3])), where)
    for k, (e, v) in sorted(cbad.items()):
        import re
        where = re.match(r"\('([^']*)'", k)
        where = where.group(1) if where else k
        if k not in cok and where not in handlers:
            res.add("binding:%s:%s" % (where.rpartition(":")[0], v), "no call target takes these arguments: %s (reached from %s)" % (v, e[1]), where)


def guarded(pkg):
    """lines inside try blocks that handle the failure"""
    r = set()
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            if hasattr(n, "lineno") and hasattr(n, "_parent") and loc(n) not in r and catches(n, {"AttributeError", "TypeError"}):
                r.add(loc(n))
    return r


def hidden(pkg, res, c):
    """a method that an attribute of the same name, used as data, hides on every object"""
    for q, cls in pkg.classes.items():
        meths = {m.name: m for m in cls.body if isinstance(m, ast.FunctionDef) and not m.decorator_list}
        stores, data, called = {}, set(), set()
        for m in cls.body:
            if not isinstance(m, ast.FunctionDef) or not m.args.args:
                continue
            me = m.args.args[0].arg
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        if m.name == "__init__":
                            stores.setdefault(n.attr, n)
                    elif isinstance(n._parent, ast.Call) and n._parent.func is n:
                        called.add(n.attr)
                    else:
                        data.add(n.attr)
        for a, n in stores.items():
            c.count("attributes_of_objects")
            if a in meths and a in data and a not in called:
                c.report("hidden", a, n, "the attribute %s set here hides the method of the same name: calling it fails" % a)


def check(prop, pkg, tier):
    from ..check import Result
    res = Result()
    c = Checker(pkg, res)
    c.names(); c.unbound(); c.attributes(); c.calls(); c.values()
    hidden(pkg, res, c)
    receivers(pkg, tier, res, c)
    res.counts.update(c.n)
    res.floor("names_resolved", 5000)
    res.rule = ("every name, member of a package or standard-library module, attribute of a package class, argument list, raised object, length or index "
                "operation and format string resolves")
    res.explanation = "Scope analysis and forward dataflow of assigned locals over every function; failures certain when the construct is reached are reported."
    return res
