"""P11: process-wide state (attributes of imported modules, such as the graph class
of NetworkX that is replaced while a wrapped function runs) is put back on every
way out of an operation, including exceptions."""
import ast
from ..scopes import Scopes, FUNCS
from ..model import loc, enclosing_function

LEVEL = "other"
# calls that change process-wide state for good (seeding the random number generator is a documented option)
GLOBAL_CALLS = {"numpy.seterr", "sys.setrecursionlimit", "os.chdir",
                "os.umask", "os.putenv", "warnings.simplefilter", "warnings.filterwarnings", "matplotlib.use", "matplotlib.pyplot.switch_backend",
                "locale.setlocale", "gc.disable", "socket.setdefaulttimeout"}


class Walk(object):
    """structured control-flow walk: the ways out of a block and the states there"""

    def __init__(self, sc, pkg):
        self.sc, self.pkg = sc, pkg
        self.touch = {}
        self.stores = 0
        self.sites = {}
        self.depth = 0

    # ---------------------------------------------------------------- targets
    def dotted(self, e):
        """external dotted name (module attribute chain) an expression denotes"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        r = self.sc.expr(e)
        if r is None:
            x = self.sc.lookup(e)
            if x and not isinstance(x[0], str) and len(x[1]) == 1 and x[1][0][0] == "from" and x[1][0][1] not in self.pkg.modules:
                return ".".join([x[1][0][1], x[1][0][2]] + parts[::-1])
            return None
        ms = [b[1] for b in r if b[0] == "mod"]
        if ms and len(ms) == len(r):
            return ".".join([ms[0]] + parts[::-1])
        return None

    def target(self, t):
        """the process-wide location a store changes, or None"""
        if isinstance(t, ast.Subscript):
            d = self.dotted(t.value)
            if d and "." in d and isinstance(t.value, ast.Attribute):
                return d + "[" + ast.unparse(t.slice) + "]"
            return None
        if isinstance(t, ast.Attribute):
            d = self.dotted(t)
            return d
        return None

    def touches(self, fn, seen=()):
        """does a function (or a package function it calls) store to process-wide state"""
        if fn in self.touch:
            return self.touch[fn]
        if fn in seen:
            return False
        r = False
        for n in ast.walk(fn):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and self.target(n):
                r = True
            elif isinstance(n, ast.Call):
                if self.setattr_target(n):
                    r = True
                else:
                    f = self.callee(n)
                    if f is not None and self.touches(f, seen + (fn,)):
                        r = True
        self.touch[fn] = r
        return r

    def setattr_target(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            d = self.dotted(n.args[0])
            if d:
                return d + "." + str(n.args[1].value)
        return None

    def callee(self, n):
        r = self.sc.expr(n.func)
        if r and len(r) == 1 and r[0][0] == "def":
            return r[0][1]
        return None

    # ---------------------------------------------------------------- blocks
    def block(self, stmts, states):
        out = {"next": states, "return": set(), "raise": set(), "break": set(), "continue": set()}
        for s in stmts:
            if not out["next"]:
                break
            r = self.stmt(s, out["next"])
            out["next"] = r["next"]
            for k in ("return", "raise", "break", "continue"):
                out[k] |= r[k]
        return out

    def o(self, **kw):
        r = {"next": set(), "return": set(), "raise": set(), "break": set(), "continue": set()}
        r.update(kw)
        return r

    def stmt(self, s, st):
        if isinstance(s, ast.If):
            a, b = self.block(s.body, st), self.block(s.orelse, st)
            r = {k: a[k] | b[k] for k in a}
            if self.raises(s.test):
                r["raise"] = r["raise"] | st
            return r
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            cur, raised, ret, brk = set(st), set(st), set(), set()
            for _ in range(6):
                r = self.block(s.body, cur)
                raised |= r["raise"]; ret |= r["return"]; brk |= r["break"]
                new = cur | r["next"] | r["continue"]
                if new == cur:
                    break
                cur = new
            e = self.block(s.orelse, cur)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            return self.o(**{"next": (set() if forever else e["next"]) | brk, "return": ret | e["return"], "raise": raised | cur | e["raise"],
                             "break": e["break"], "continue": e["continue"]})
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            b = self.block(s.body, st)
            out = self.o(**{k: set(b[k]) for k in ("return", "break", "continue")})
            e = self.block(s.orelse, b["next"])
            out["next"] = e["next"]
            for k in ("return", "break", "continue", "raise"):
                out[k] |= e[k]
            caught = b["raise"]
            everything = False
            for h in s.handlers:
                r = self.block(h.body, caught)
                for k in out:
                    out[k] |= r[k]
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                    everything = True
            if not everything:
                out["raise"] |= caught
            if s.finalbody:
                res = self.o()
                for k in out:
                    if out[k]:
                        f = self.block(s.finalbody, out[k])
                        res[k] |= f["next"]
                        for q in ("return", "raise", "break", "continue"):
                            res[q] |= f[q]
                out = res
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = self.block(s.body, st)
            for i in s.items:
                v = i.context_expr
                if isinstance(v, ast.Call) and (self.dotted(v.func) or "").split(".")[-1] == "suppress":
                    r["next"] = r["next"] | r["raise"]
            r["raise"] = r["raise"] | st
            return r
        if isinstance(s, ast.Return):
            st2, raised = self.effects(s, st)
            return self.o(**{"return": st2, "raise": raised})
        if isinstance(s, ast.Raise):
            return self.o(**{"raise": st})
        if isinstance(s, ast.Break):
            return self.o(**{"break": st})
        if isinstance(s, ast.Continue):
            return self.o(**{"continue": st})
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal, ast.AsyncFunctionDef)):
            return self.o(next=st)
        nxt, raised = self.effects(s, st)
        return self.o(**{"next": nxt, "raise": raised})

    def raises(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Compare, ast.Yield, ast.YieldFrom, ast.Await)):
                if isinstance(n, ast.Attribute) and self.dotted(n):
                    continue
                if isinstance(n, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
                    continue
                return True
        return False

    def effects(self, s, st):
        """a simple statement: (states after, states when it raises)"""
        value = getattr(s, "value", None)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(value, ast.Tuple) \
                and len(value.elts) == len(s.targets[0].elts):
            raised = set(st) if any(self.raises(v) for v in value.elts) else set()
            for t, v in zip(s.targets[0].elts, value.elts):
                st = {self.store(x, t, v, s) for x in st}
            return st, raised
        raised = set(st) if any(self.raises(c) for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr) and not self.target(c)) or \
            isinstance(s, (ast.Assert, ast.Import, ast.ImportFrom)) else set()
        out = set()
        # a call of a package function that changes process-wide state is followed
        if isinstance(value, ast.Call):
            t = self.setattr_target(value)
            if t:
                v = value.args[2] if len(value.args) > 2 else None
                return {self.put(x, t, v, s) for x in st}, raised
            f = self.callee(value)
            if f is not None and self.touches(f) and self.depth < 4:
                self.depth += 1
                nxt, raised = set(), set()
                for x in st:
                    a, b = self.inline(f, value, x, s.targets[0] if isinstance(s, ast.Assign) else None)
                    nxt |= a
                    raised |= b
                self.depth -= 1
                return nxt, raised
        for x in st:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    x = self.store(x, t, value, s)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                x = self.store(x, s.target, None if isinstance(s, ast.AugAssign) else value, s)
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    x = self.store(x, t, None, s)
            out.add(x)
        return out, raised

    def saved(self, x, v):
        """targets whose original value an expression holds"""
        if isinstance(v, ast.Name):
            return {f[2] for f in x if f[0] == "saved" and f[1] == v.id}
        if isinstance(v, ast.Attribute):
            key = ast.unparse(v)
            r = {f[2] for f in x if f[0] == "saved" and f[1] == key}
            d = self.target(v)
            if d and not any(f[0] == "dirty" and f[1] == d for f in x):
                r.add(d)
            return r
        if isinstance(v, ast.Subscript):
            d = self.target(v)
            if d and not any(f[0] == "dirty" and f[1] == d for f in x):
                return {d}
            return {f[2] for f in x if f[0] == "saved" and f[1] == ast.unparse(v)}
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "getattr" and len(v.args) > 1 and isinstance(v.args[1], ast.Constant):
            d = self.dotted(v.args[0])
            if d:
                d = d + "." + str(v.args[1].value)
                if not any(f[0] == "dirty" and f[1] == d for f in x):
                    return {d}
        return set()

    def put(self, x, d, v, s):
        self.stores += 1
        if v is not None and d in self.saved(x, v):
            return frozenset(f for f in x if not (f[0] == "dirty" and f[1] == d))
        self.sites.setdefault(d, s)
        return x | {("dirty", d)}

    def store(self, x, t, v, s):
        d = self.target(t)
        if d:
            return self.put(x, d, v, s)
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
            key = t.id if isinstance(t, ast.Name) else ast.unparse(t)
            r = self.saved(x, v) if v is not None else set()
            x = frozenset(f for f in x if not (f[0] == "saved" and f[1] == key))
            return x | {("saved", key, k) for k in r}
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                x = self.store(x, e, None, s)
        return x

    def inline(self, f, call, x, target):
        ps = [a.arg for a in f.args.args]
        glob = {y for y in x if y[0] == "dirty"}
        inner = set(glob)
        for p, a in list(zip(ps, call.args)) + [(k.arg, k.value) for k in call.keywords if k.arg]:
            inner |= {("saved", p, d) for d in self.saved(x, a)}
        keep = frozenset(y for y in x if y[0] != "dirty")
        r = self.block(f.body, {frozenset(inner)})
        nxt, raised = set(), set()
        rets = {n for n in ast.walk(f) if isinstance(n, ast.Return) and enclosing_function(n) is f and n.value is not None}
        for y in r["next"] | r["return"]:
            z = keep | {q for q in y if q[0] == "dirty"}
            if target is not None and isinstance(target, ast.Name):
                z = frozenset(q for q in z if not (q[0] == "saved" and q[1] == target.id))
                got = set.intersection(*[{q[2] for q in y if q[0] == "saved" and q[1] == ast.unparse(n.value)} for n in rets]) if rets else set()
                z = frozenset(z) | {("saved", target.id, d) for d in got}
            nxt.add(frozenset(z))
        for y in r["raise"]:
            raised.add(keep | {q for q in y if q[0] == "dirty"})
        return nxt, raised


def check(prop, pkg, tier):
    from ..check import Result
    res = Result()
    sc = Scopes(pkg)
    w = Walk(sc, pkg)
    called = set()
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                f = w.callee(n)
                if f is not None:
                    called.add(f)
                d = w.dotted(n.func)
                if d in GLOBAL_CALLS and enclosing_function(n) is not None:
                    q = pkg.qual.get(enclosing_function(n), m.name)
                    res.add("call:%s:%s" % (m.name, d), "%s changes the state of the whole process" % d, loc(n), q)
    n = paths = 0
    for q, f in sorted(pkg.functions.items()):
        if f.name in ("__exit__", "__aexit__"):
            continue
        if not w.touches(f) or (f in called and f.name.startswith("_")):
            continue
        n += 1
        r = w.block(f.body, {frozenset()})
        for way, states in (("return", r["next"] | r["return"]), ("exception", r["raise"])):
            paths += len(states)
            for x in states:
                for d in sorted(y[1] for y in x if y[0] == "dirty"):
                    if f.name in ("__enter__", "__aenter__") and restored_by_exit(w, f, d):
                        continue
                    res.add("%s:%s" % (q.rpartition(".")[0], d), "%s is changed and not put back when the function is left by %s" % (
                        d, "an exception" if way == "exception" else "returning"), loc(w.sites.get(d, f)), q)
    res.counts.update(functions_changing_process_state=n, exits_examined=paths, functions=len(pkg.functions))
    res.rule = "on every path out of a function, normal or exceptional, each module attribute it stored holds the value saved before"
    res.explanation = "Typestate analysis of stores to attributes of imported modules over structured control flow with exceptional exits."
    return res


def restored_by_exit(w, enter, d):
    for m in enter._parent.body:
        if isinstance(m, ast.FunctionDef) and m.name in ("__exit__", "__aexit__"):
            for n in ast.walk(m):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store) and w.target(n) == d:
                    return True
                if isinstance(n, ast.Call) and w.setattr_target(n) == d:
                    return True
    return False
