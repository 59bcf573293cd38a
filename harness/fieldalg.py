"""Exact linear algebra of operators over a field with derivations, for the pyginv monitors.

A value is a dict {(pos, exponents): c} with c in QQ(gens) (sympy FracField element) or Fraction.
pos -1 is the inhomogeneous part of a differential polynomial: derivatives act on its coefficient only.
"""
from math import lcm as _lcm


class TooBig(Exception):
    pass


class Field:
    """Coefficients QQ(par) when par is given, Fraction otherwise; with vars, par[i] == vars[i] derive."""

    def __init__(self, par=()):
        from fractions import Fraction
        self.par = tuple(par)
        if par:
            from sympy.polys.fields import FracField
            from sympy import QQ
            self.K = FracField(self.par, QQ)
            self.one, self.zero = self.K.one, self.K.zero
        else:
            self.K = None
            self.one, self.zero = Fraction(1), Fraction(0)
        self.F = Fraction

    def of(self, k):
        """Of a sympy expression or number."""
        if self.K is None:
            if isinstance(k, int):
                return self.F(k)
            if not k.is_Rational:
                raise ValueError("coefficient %r" % (k,))
            return self.F(int(k.p), int(k.q))
        import sympy
        return self.K.from_expr(sympy.sympify(k))

    def to(self, c):
        import sympy
        if self.K is None:
            return sympy.Rational(c.numerator, c.denominator)
        return c.as_expr()

    def diff(self, c, v):
        return c.diff(self.K.gens[v])

    def size(self, c):
        if self.K is None:
            return max(c.numerator.bit_length(), c.denominator.bit_length()) // 8
        return len(c.numer) + len(c.denom)


class Ops:
    """prolong(a, v): a multiplied by variable v, or its derivative by it when diff is set."""

    def __init__(self, field, key, diff=False, budget=4000, growth=40):
        self.f, self.key, self.dif, self.budget, self.growth = field, key, diff, budget, growth

    def lm(self, a):
        return max(a, key=self.key)

    def prolong(self, a, v):
        r = {}
        for (p, e), c in a.items():
            if not (self.dif and p < 0):
                m = (p, e[:v] + (e[v] + 1,) + e[v + 1:])
                x = r.get(m, self.f.zero) + c
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
            if self.dif:
                x = self.f.diff(c, v)
                if x:
                    x = r.get((p, e), self.f.zero) + x
                    if x:
                        r[(p, e)] = x
                    else:
                        r.pop((p, e), None)
        return r

    def times(self, a, e):
        if not self.dif:
            return {(p, tuple(i + j for i, j in zip(f, e))): c for (p, f), c in a.items()}
        for v, d in enumerate(e):
            for _ in range(d):
                a = self.prolong(a, v)
        return a

    def axpy(self, a, b, c):
        """a + c*b"""
        r = dict(a)
        for m, x in b.items():
            y = r.get(m, self.f.zero) + c * x
            if y:
                r[m] = y
            else:
                r.pop(m, None)
        return r

    def monic(self, a):
        if not a:
            return a
        c = a[self.lm(a)]
        return {m: x / c for m, x in a.items()}

    def divides(self, m, n):
        return m[0] == n[0] and all(i <= j for i, j in zip(m[1], n[1]))

    def spend(self, a):
        self.budget -= 1 + len(a)
        if self.budget < 0:
            raise TooBig()
        for c in a.values():
            if self.f.size(c) > self.growth:
                raise TooBig()

    def nf(self, a, g):
        """Full normal form of a by [(lm, monic element)]."""
        a, r = dict(a), {}
        while a:
            m = self.lm(a)
            for l, h in g:
                if self.divides(l, m):
                    a = self.axpy(a, self.times(h, tuple(i - j for i, j in zip(m[1], l[1]))), -a[m])
                    self.spend(a)
                    break
            else:
                r[m] = a.pop(m)
        return r

    def buchberger(self, fs):
        """The reduced monic basis {lm: element}."""
        g, pairs = [], []

        def put(h):
            h = self.monic(h)
            l = self.lm(h)
            for i, (k, _) in enumerate(g):
                if k[0] == l[0]:
                    pairs.append((sum(max(x, y) for x, y in zip(k[1], l[1])), i, len(g)))
            g.append((l, h))
        for a in sorted(fs, key=lambda a: self.key(self.lm(a))):
            r = self.nf(a, g)
            if r:
                put(r)
        while pairs:
            pairs.sort(reverse=True)
            d, i, j = pairs.pop()
            if d > 12:
                raise TooBig()
            (k, a), (l, b) = g[i], g[j]
            if not self.dif and k[0] < 0 and not any(x and y for x, y in zip(k[1], l[1])):
                continue
            m = tuple(max(x, y) for x, y in zip(k[1], l[1]))
            s = self.axpy(self.times(a, tuple(x - y for x, y in zip(m, k[1]))),
                          self.times(b, tuple(x - y for x, y in zip(m, l[1]))), -self.f.one)
            r = self.nf(s, g)
            if r:
                put(r)
                if len(g) > 30:
                    raise TooBig()
        keep = [i for i in range(len(g)) if not any(
            self.divides(g[j][0], g[i][0]) and (g[j][0] != g[i][0] or j < i) for j in range(len(g)) if j != i)]
        return {g[i][0]: self.nf(g[i][1], [g[j] for j in keep if j != i]) for i in keep}
