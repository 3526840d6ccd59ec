"""P20: functions that take a seed draw random numbers only after seeding the
generator with it, and use no other source of randomness."""
import ast
from .restore import Walk
from ..scopes import Scopes, FUNCS
from ..model import loc, params_of, all_params, enclosing_function

LEVEL = "other"
ENTROPY = ("time.", "datetime.", "os.urandom", "os.getpid", "uuid.", "secrets.", "random.SystemRandom", "numpy.random.", "scipy.stats.rv")
SEEDERS = ("random.seed", "random.setstate")
PURE = ("random.Random", "random.getstate")


class Seeds(Walk):
    def __init__(self, sc, pkg, fn, drawing):
        Walk.__init__(self, sc, pkg)
        self.fn, self.drawing = fn, drawing
        self.bad = []
        self.draws = 0
        self.aliases = {"seed"}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == "seed" and isinstance(n.targets[0], ast.Name):
                self.aliases.add(n.targets[0].id)

    def is_none(self, t):
        """True: the test is 'seed is None'; False: 'seed is not None'; None: something else"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.is_none(t.operand)
            return None if r is None else not r
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in self.aliases \
                and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Eq, ast.Is)):
                return True
            if isinstance(t.ops[0], (ast.NotEq, ast.IsNot)):
                return False
        return None

    def stmt(self, s, st):
        if isinstance(s, ast.If):
            k = self.is_none(s.test)
            st = self.uses(s.test, st)
            if k is not None:
                yes = {x | {("none",)} for x in st if ("given",) not in x}
                no = {x | {("given",)} for x in st if ("none",) not in x}
                a, b = (yes, no) if k else (no, yes)
            else:
                a = b = st
            a, b = self.block(s.body, a), self.block(s.orelse, b)
            r = {k2: a[k2] | b[k2] for k2 in a}
            r["raise"] |= st
            return r
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.uses(s.iter, st)
        elif isinstance(s, ast.While):
            st = self.uses(s.test, st)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.uses(i.context_expr, st)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.o(next=st)
        return Walk.stmt(self, s, st)

    def effects(self, s, st):
        return self.uses(s, st), set(st)

    def uses(self, e, st):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                st = self.call(n, st)
            elif isinstance(n, ast.Attribute) and not (isinstance(n._parent, ast.Call) and n._parent.func is n) and not isinstance(n._parent, ast.Attribute):
                d = self.dotted(n)
                if d and d.startswith("random.") and d not in SEEDERS + PURE:
                    self.draw(n, d, st)
        return st

    def draw(self, n, d, st):
        self.draws += 1
        for x in st:
            if ("seeded",) not in x and ("none",) not in x:
                self.bad.append((n, "random numbers are drawn (%s) before the generator is seeded with the given seed" % d, "draw"))
                return

    def call(self, n, st):
        d = self.dotted(n.func)
        if d in SEEDERS:
            args = n.args + [k.value for k in n.keywords]
            out = set()
            for x in st:
                good = args and any(isinstance(m, ast.Name) and m.id in self.aliases for a in args for m in ast.walk(a))
                ifexp = args and isinstance(args[0], ast.IfExp)
                if good or ("none",) in x:
                    out.add(x | {("seeded",)})
                else:
                    if ("seeded",) in x or True:
                        self.bad.append((n, "the generator is seeded with something else than the given seed", "seed"))
                    out.add(x)
            return out
        if d and any(d.startswith(p) for p in ENTROPY):
            self.bad.append((n, "%s is another source of randomness or of the time" % d, "entropy"))
            return st
        if d and d.startswith("random.") and d not in PURE:
            self.draw(n, d, st)
            return st
        if isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and self.sc.lookup(n.func) and self.sc.lookup(n.func)[0] == "builtin":
            self.bad.append((n, "%s() differs from run to run" % n.func.id, "entropy"))
            return st
        f = self.callee(n)
        if f is not None and f is not self.fn:
            if "seed" in all_params(f):
                given = [k.value for k in n.keywords if k.arg == "seed"]
                ps = params_of(f)
                if not given and "seed" in ps and len(n.args) > ps.index("seed"):
                    given = [n.args[ps.index("seed")]]
                ok = given and any(isinstance(m, ast.Name) and m.id in self.aliases for m in ast.walk(given[0]))
                if not ok and any(("none",) not in x for x in st):
                    self.bad.append((n, "%s is called without the given seed and seeds the generator anew" % f.name, "seed"))
                return st
            k = self.drawing.get(f)
            if k == "helper" and self.depth < 4:
                # a helper that seeds: followed
                self.depth += 1
                ps = params_of(f)
                sub = Seeds(self.sc, self.pkg, f, self.drawing)
                sub.depth = self.depth
                sub.aliases = {p for p, a in list(zip(ps, n.args)) + [(k2.arg, k2.value) for k2 in n.keywords if k2.arg]
                               if isinstance(a, ast.Name) and a.id in self.aliases}
                r = sub.block(f.body, set(st))
                self.bad += sub.bad
                self.draws += sub.draws
                self.depth -= 1
                return r["next"] | r["return"] or st
            if k == "draws":
                self.draw(n, f.name + "()", st)
        return st


def classify(sc, pkg):
    """functions that draw ('draws') or seed ('helper') directly or through package functions"""
    w = Walk(sc, pkg)
    direct, calls = {}, {}
    for q, f in pkg.functions.items():
        calls[f] = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute):
                d = w.dotted(n)
                if d in SEEDERS:
                    direct[f] = "helper"
                elif d and d.startswith("random.") and d not in PURE and f not in direct:
                    direct[f] = "draws"
                elif d and any(d.startswith(p) for p in ENTROPY):
                    direct.setdefault(f, "draws")
            if isinstance(n, ast.Call):
                g = w.callee(n)
                if g is not None:
                    calls[f].add(g)
    changed = True
    while changed:
        changed = False
        for f, gs in calls.items():
            for g in gs:
                if g in direct and "seed" not in all_params(g):
                    v = direct[g]
                    if f not in direct or (v == "helper" and direct[f] != "helper"):
                        direct[f] = v
                        changed = True
    return direct


def check(prop, pkg, tier):
    from ..check import Result
    res = Result()
    sc = Scopes(pkg)
    drawing = classify(sc, pkg)
    n = draws = 0
    for q, f in sorted(pkg.functions.items()):
        if "seed" not in all_params(f) or isinstance(f._parent, ast.ClassDef):
            continue
        n += 1
        w = Seeds(sc, pkg, f, drawing)
        r = w.block(f.body, {frozenset()})
        draws += w.draws
        for x in r["next"] | r["return"]:
            if ("none",) not in x and ("seeded",) not in x and not delegates(w, f):
                res.add("unused:" + q, "the given seed is not used", loc(f), q)
        for node, msg, kind in w.bad:
            res.add("%s:%s" % (kind, q), msg, loc(node), q)
    others = reseeders(sc, pkg, res)
    res.counts.update(other_functions=others, functions_with_a_seed=n, drawing_sites=draws, drawing_functions=len(drawing))
    res.floor("functions_with_a_seed", 1)
    res.rule = "on every path, draws of a function with a seed come after seeding with exactly that seed; no other entropy source is used"
    res.explanation = "Typestate analysis (unseeded, seeded) of the random number generator over structured control flow, through package calls."
    return res


GENERATORS = ("numpy.random.", "random.SystemRandom", "os.urandom", "secrets.", "uuid.")


def reseeders(sc, pkg, res):
    """functions without a seed leave the state of the shared generator to the caller and draw from no other"""
    w = Walk(sc, pkg)
    calls = {}
    for q, f in pkg.functions.items():
        calls[f] = {g for g in (w.callee(n) for n in ast.walk(f) if isinstance(n, ast.Call)) if g is not None}
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and enclosing_function(n) is None and w.dotted(n.func) in SEEDERS:
                res.add("reseed:" + m.name, "importing the module seeds the shared random number generator", loc(n), m.name)
    helpers = set()
    todo = [f for f in pkg.functions.values() if "seed" in all_params(f)]
    while todo:
        for g in calls.get(todo.pop(), ()):
            if g not in helpers:
                helpers.add(g)
                todo.append(g)
    k = 0
    for q, f in sorted(pkg.functions.items()):
        if "seed" in all_params(f):
            continue
        k += 1
        for n in ast.walk(f):
            if not isinstance(n, ast.Call):
                continue
            d = w.dotted(n.func)
            if d in SEEDERS and f not in helpers:
                res.add("reseed:" + q, "%s changes the state of the shared random number generator although no seed was given by the caller" % d, loc(n), q)
            elif d and any(d.startswith(p) for p in GENERATORS):
                res.add("generator:" + q, "%s draws from a generator the caller cannot seed" % d, loc(n), q)
    return k


def delegates(w, f):
    """the seed is handed on to a generator object or to another function"""
    for n in ast.walk(f):
        if isinstance(n, ast.Call):
            for a in n.args + [k.value for k in n.keywords]:
                if isinstance(a, ast.Name) and a.id in w.aliases:
                    return True
    return False
