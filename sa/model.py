"""Loading and indexing of the analysed package (syntax trees only)."""
import ast, os, hashlib, warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP_DIRS = {"tests", "benchmarks", "__pycache__"}


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (vanished anchor, unparsable file...)."""


class Module(object):
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, path)
        self.package = name if self.is_pkg else name.rpartition(".")[0]
        for parent in ast.walk(self.tree):
            for child in ast.iter_child_nodes(parent):
                child._parent = parent
        for n in ast.walk(self.tree):
            n._mod = self


class Package(object):
    def __init__(self, repo=None, root="pymnet"):
        self.repo = repo or REPO
        self.root = root
        self.modules = {}
        base = os.path.join(self.repo, root)
        if not os.path.isdir(base):
            raise AnalysisError("package directory %s is missing" % base)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    self.modules[name] = Module(name, p, rel, src)
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (rel, e))
        self._index()

    def _index(self):
        self.functions = {}          # qualified name -> FunctionDef (top level and methods and nested)
        self.classes = {}            # qualified name -> ClassDef
        self.qual = {}               # node -> qualified name

        def visit(node, prefix):
            for child in ast.iter_child_nodes(node):
                if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + "." + child.name
                    self.functions[q] = child
                    self.qual[child] = q
                    visit(child, q)
                elif isinstance(child, ast.ClassDef):
                    q = prefix + "." + child.name
                    self.classes[q] = child
                    self.qual[child] = q
                    visit(child, q)
                else:
                    visit(child, prefix)
        for m in self.modules.values():
            visit(m.tree, m.name)

    def module(self, name):
        if name not in self.modules:
            raise AnalysisError("module %s is missing" % name)
        return self.modules[name]

    def func(self, q):
        if q not in self.functions:
            raise AnalysisError("anchor function %s is missing" % q)
        return self.functions[q]

    def cls(self, q):
        if q not in self.classes:
            raise AnalysisError("anchor class %s is missing" % q)
        return self.classes[q]

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode()); h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def stats(self):
        return {"modules": len(self.modules), "functions": len(self.functions),
                "classes": len(self.classes),
                "lines": sum(m.src.count("\n") + 1 for m in self.modules.values()),
                "source_digest": self.digest()}


def loc(node):
    m = getattr(node, "_mod", None)
    return "%s:%d" % (m.rel if m else "?", getattr(node, "lineno", 0))


def enclosing_function(node):
    n = getattr(node, "_parent", None)
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        n = getattr(n, "_parent", None)
    return n


def enclosing_class(node):
    n = getattr(node, "_parent", None)
    while n is not None and not isinstance(n, ast.ClassDef):
        n = getattr(n, "_parent", None)
    return n


def params_of(fn):
    a = fn.args
    return [x.arg for x in getattr(a, "posonlyargs", []) + a.args]


def all_params(fn):
    a = fn.args
    r = [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs]
    if a.vararg:
        r.append(a.vararg.arg)
    if a.kwarg:
        r.append(a.kwarg.arg)
    return r
