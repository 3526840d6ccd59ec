"""Name resolution over the syntax trees: scopes, module namespaces, imports,
class members."""
import ast, builtins, importlib

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__"}
# modules of the standard library whose members are looked up
STDLIB = {"math", "itertools", "random", "os", "os.path", "collections", "collections.abc", "functools", "heapq", "pickle", "json",
          "operator", "re", "sys", "copy", "string", "bisect", "time", "io", "tempfile"}


def import_target(mod, node):
    """absolute dotted name of the module a `from x import y` refers to"""
    if not node.level:
        return node.module or ""
    p = mod.package.split(".")
    p = p[:len(p) - (node.level - 1)]
    return ".".join(p + ([node.module] if node.module else []))


class Scopes(object):
    def __init__(self, pkg):
        self.pkg = pkg
        self.ns = {}          # module -> {name: [binding]}; binding = ("def", node) ("class", node) ("mod", dotted) ("from", mod, name) ("value", node)
        self.open = set()     # modules with star imports from outside the package
        self.local = {}       # scope node -> {name: [binding]}
        self.decl = {}        # scope node -> (globals, nonlocals)
        for m in pkg.modules.values():
            self.collect(m.tree, m)
        for m in pkg.modules.values():
            self.ns[m.name] = self.local[m.tree]
        for m in pkg.modules.values():
            for s, (g, n) in list(self.decl.items()):
                if s._mod is m:
                    for x in g:
                        for b in self.stores.get((s, x), []):
                            self.ns[m.name].setdefault(x, []).append(b)
        changed = True
        while changed:
            changed = False
            for m, node in self.stars:
                t = import_target(m, node)
                if t not in pkg.modules:
                    self.open.add(m.name)
                    continue
                if t in self.open and m.name not in self.open:
                    self.open.add(m.name); changed = True
                for k, v in list(self.ns[t].items()):
                    if not k.startswith("_") and k not in self.ns[m.name]:
                        self.ns[m.name][k] = list(v); changed = True
        for name in pkg.modules:
            parent, _, last = name.rpartition(".")
            if parent in self.ns:
                self.ns[parent].setdefault(last, []).append(("mod", name))

    stars = None
    stores = None

    def collect(self, scope, mod):
        if self.stars is None:
            self.stars, self.stores = [], {}
        names = {}
        gl, nl = set(), set()
        self.local[scope] = names
        self.decl[scope] = (gl, nl)

        def bind(name, b):
            names.setdefault(name, []).append(b)
        if isinstance(scope, FUNCS):
            a = scope.args
            for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                bind(x.arg, ("param", x))

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                bind(n.name, ("def", n))
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
                self.collect(n, mod)
                return
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
                self.collect(n, mod)
                return
            if isinstance(n, ast.ClassDef):
                bind(n.name, ("class", n))
                for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                    visit(d)
                self.collect(n, mod)
                return
            if isinstance(n, COMPS):
                visit(n.generators[0].iter)
                self.collect(n, mod)
                return
            if isinstance(n, ast.Global):
                gl.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nl.update(n.names)
            elif isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        bind(al.asname, ("mod", al.name))
                    else:
                        bind(al.name.split(".")[0], ("mod", al.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                for al in n.names:
                    if al.name == "*":
                        self.stars.append((mod, n))
                    else:
                        bind(al.asname or al.name, ("from", import_target(mod, n), al.name, n))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bind(n.id, ("value", n))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bind(n.name, ("value", n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "globals", "vars", "setattr") \
                    and isinstance(scope, ast.Module):
                self.open.add(mod.name)
            for c in ast.iter_child_nodes(n):
                visit(c)
        if isinstance(scope, COMPS):
            for i, g in enumerate(scope.generators):
                visit(g.target)
                if i:
                    visit(g.iter)
                for c in g.ifs:
                    visit(c)
            for f in ("elt", "key", "value"):
                if hasattr(scope, f):
                    visit(getattr(scope, f))
        elif isinstance(scope, ast.Lambda):
            visit(scope.body)
        else:
            for s in scope.body:
                visit(s)
        for x in gl | nl:
            if x in names:
                self.stores[(scope, x)] = names.pop(x)

    # ------------------------------------------------------------ resolution
    def scope_of(self, n):
        """the scope in which an expression node is evaluated"""
        c, p = n, getattr(n, "_parent", None)
        while p is not None:
            if isinstance(p, ast.Module):
                return p
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if c in p.body:
                    return p
            elif isinstance(p, ast.Lambda):
                if c is p.body:
                    return p
            elif isinstance(p, ast.ClassDef):
                if c in p.body:
                    return p
            elif isinstance(p, COMPS):
                if c is not p.generators[0]:
                    return p
            elif isinstance(p, ast.comprehension):
                comp = p._parent
                if not (comp.generators[0] is p and c is p.iter):
                    return comp
                c, p = comp, comp._parent
                continue
            c, p = p, getattr(p, "_parent", None)
        return None

    def lookup(self, n, name=None):
        """bindings of a name at an expression: (scope, bindings) or None"""
        name = name or n.id
        s = self.scope_of(n)
        first = True
        while s is not None:
            g, nl = self.decl[s]
            if name in g:
                break
            if (first or not isinstance(s, ast.ClassDef)) and name in self.local[s] and name not in nl:
                return s, self.local[s][name]
            if isinstance(s, ast.Module):
                break
            if not isinstance(s, COMPS):
                first = False
            s = self.outer(s)
        m = n._mod.name
        if name in self.ns[m]:
            return self.pkg.modules[m].tree, self.ns[m][name]
        if name in BUILTINS:
            return "builtin", []
        if m in self.open:
            return "open", []
        return None

    def outer(self, s):
        return self.scope_of(s)

    def member(self, dotted, name):
        """binding of an attribute of a module: list of bindings, None when it certainly does not exist, "?" when unknown"""
        if dotted in self.pkg.modules:
            if name in self.ns[dotted]:
                return self.ns[dotted][name]
            if dotted in self.open or name.startswith("__"):
                return "?"
            return None
        if dotted in STDLIB:
            m = importlib.import_module(dotted)
            return "?" if hasattr(m, name) else None
        return "?"

    def resolve(self, bindings, depth=0):
        """follow imports: list of final bindings, or None when unknown"""
        out = []
        for b in bindings:
            if b[0] == "from" and depth < 20:
                r = self.member(b[1], b[2])
                if r == "?" or r is None:
                    return None
                r = self.resolve(r, depth + 1)
                if r is None:
                    return None
                out += r
            else:
                out.append(b)
        return out

    def expr(self, e):
        """what a name or dotted name certainly denotes: list of bindings or None"""
        if isinstance(e, ast.Name):
            r = self.lookup(e)
            if r is None or isinstance(r[0], str):
                return None
            return self.resolve(r[1])
        if isinstance(e, ast.Attribute):
            r = self.expr(e.value)
            if not r or any(b[0] != "mod" for b in r):
                return None
            out = []
            for b in r:
                x = self.member(b[1], e.attr)
                if x == "?" or x is None:
                    return None
                x = self.resolve(x)
                if x is None:
                    return None
                out += x
            return out
        return None

    # ------------------------------------------------------------ classes
    def bases(self, cls):
        """package base classes, and whether all bases are known"""
        known, out = True, []
        for b in cls.bases:
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            r = self.expr(b)
            if r and all(x[0] == "class" for x in r):
                out += [x[1] for x in r]
            else:
                known = False
        return out, known

    def mro(self, cls):
        seen, todo, known = [], [cls], True
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.append(c)
            b, k = self.bases(c)
            known = known and k
            todo += b
        return seen, known

    def subclasses(self, cls):
        out = []
        for c in self.pkg.classes.values():
            if c is not cls and cls in self.mro(c)[0]:
                out.append(c)
        return out

    def class_names(self, cls):
        """names defined in the class body"""
        return set(self.local[cls])

    def self_attrs(self, cls):
        """attributes stored on the receiver in the methods of a class"""
        r = set()
        for m in cls.body:
            if isinstance(m, ast.FunctionDef) and m.args.args:
                me = m.args.args[0].arg
                for n in ast.walk(m):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                        r.add(n.attr)
        return r
