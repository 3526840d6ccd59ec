"""Exact rational functions of positive symbols (exponents may be fractions)."""
from fractions import Fraction


def frac(x):
    if isinstance(x, float):
        return Fraction(x).limit_denominator(10 ** 6)
    return Fraction(x)


def mul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            m = dict(a)
            for i, e in b:
                m[i] = m.get(i, 0) + e
            m = tuple(sorted((i, e) for i, e in m.items() if e))
            r[m] = r.get(m, 0) + x * y
    return dict((m, c) for m, c in r.items() if c)


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return dict((m, c) for m, c in r.items() if c)


ONE = {(): Fraction(1)}


class Undecided(Exception):
    pass


class Alg(object):
    """num/den; symbols are positive and totally ordered by their index"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        den = den or ONE
        if len(den) == 1 and den is not ONE:
            (m, c), = den.items()
            num, den = mul(num, {tuple((i, -e) for i, e in m): 1 / c}), ONE
        self.num, self.den = num, den

    @staticmethod
    def symbol(i):
        return Alg({((i, Fraction(1)),): Fraction(1)})

    @staticmethod
    def of(x):
        return x if isinstance(x, Alg) else Alg({(): frac(x)} if x else {})

    def out(self):
        """a plain number when constant"""
        if not self.num:
            return 0
        if self.den is ONE and list(self.num) == [()]:
            c = self.num[()]
            return c.numerator if c.denominator == 1 else float(c)
        return self

    def __add__(self, o, k=1):
        o = Alg.of(o)
        if self.den == o.den:
            return Alg(add(self.num, o.num, k), self.den).out()
        return Alg(add(mul(self.num, o.den), mul(o.num, self.den), k), mul(self.den, o.den)).out()

    __radd__ = __add__

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __rsub__(self, o):
        return Alg.of(o) - self

    def __mul__(self, o):
        o = Alg.of(o)
        return Alg(mul(self.num, o.num), mul(self.den, o.den)).out()

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Alg.of(o)
        if not o.num:
            raise ZeroDivisionError
        return Alg(mul(self.num, o.den), mul(self.den, o.num)).out()

    def __rtruediv__(self, o):
        return Alg.of(o) / self

    def __pow__(self, k):
        k = frac(k)
        if k.denominator == 1 and k >= 0:
            r = Alg(ONE)
            for _ in range(int(k)):
                r = Alg.of(r * self)
            return r.out()
        return self.root(k)

    def root(self, k):
        if len(self.num) != 1 or self.den is not ONE:
            raise Undecided("root of a sum")
        (m, c), = self.num.items()
        if c < 0:
            raise Undecided("root of a negative value")
        if c != 1 and k != -1:
            raise Undecided("root of a number")
        return Alg({tuple((i, e * k) for i, e in m): c ** int(k) if c != 1 else c}).out()

    def sign(self):
        s = set((c > 0) for p in (self.num,) for c in p.values())
        d = set((c > 0) for c in self.den.values())
        if len(s) > 1 or len(d) > 1:
            raise Undecided("sign of %r" % (self,))
        return 0 if not s else 1 if s == d else -1

    def single(self):
        if self.den is ONE and len(self.num) == 1:
            (m, c), = self.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    @staticmethod
    def below(a, b):
        if not isinstance(a, Alg) and not isinstance(b, Alg):
            return a < b
        a, b = Alg.of(a), Alg.of(b)
        i, j = a.single(), b.single()
        if i is not None and j is not None:
            return i < j
        return Alg.of(b - a).sign() > 0

    @staticmethod
    def same(a, b):
        a, b = Alg.of(a), Alg.of(b)
        return mul(a.num, b.den) == mul(b.num, a.den)

    def differ(self, o):
        """definitely unequal"""
        i, j = self.single(), Alg.of(o).single()
        if i is not None and j is not None:
            return i != j
        return Alg.of(self - o).sign() != 0

    def __eq__(self, o):
        return isinstance(o, (Alg, int, float, Fraction)) and Alg.same(self, o)

    def __hash__(self):
        return 7

    def __repr__(self):
        f = lambda p: " + ".join("*".join(([str(c)] if c != 1 or not m else []) + ["w%d%s" % (i, "" if e == 1 else "^" + str(e)) for i, e in m])
                                 for m, c in sorted(p.items())) or "0"
        return f(self.num) if self.den is ONE else "(%s)/(%s)" % (f(self.num), f(self.den))
