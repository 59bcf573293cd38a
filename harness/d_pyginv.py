"""Monitors of the pure Python implementation."""
import contextlib, io, os, re, sys, time
from fractions import Fraction as Fr
from math import comb
sys.dont_write_bytecode = True
sys.set_int_max_str_digits(0)
sys.path.insert(0, os.environ["GINV_PY"])
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter("ignore")
import sympy
from sympy import Integer, Rational
import ginv as G
from ginv import Monom, Poly, PolyDiff, PolySchem, Wrap, Janet, JanetCache, Forest, HilbertPoly, CombRepet, Q
import refalg as R
from fieldalg import Field, Ops, TooBig
from pyvh import main, ok, raises, seen, count, desc, Skip, Fail

VAR = ("x", "y", "z", "t", "a", "b", "c", "d", "xi", "eta")
FUN = ("u", "v", "w", "f", "g", "h", "p", "q", "phi", "psi", "w1", "w2")
PAR = sympy.symbols("alpha, beta", real=True)
RORD = {"lex": Monom.lex, "deglex": Monom.deglex}
MORD = {"POTlex": Monom.POTlex, "TOPlex": Monom.TOPlex, "POTdeglex": Monom.POTdeglex, "TOPdeglex": Monom.TOPdeglex}
QF = Field()
PF = Field(PAR)


def mkey(o):
    if o.endswith("deglex"):
        return lambda e: (sum(e), tuple(-x for x in reversed(e)))
    return lambda e: e


def pk(p):
    return (p >= 0, -p)


def okey(o):
    k = mkey(o)
    if o.startswith("POT"):
        return lambda m: (pk(m[0]), k(m[1]))
    if o.startswith("TOP"):
        return lambda m: (k(m[1]), pk(m[0]))
    return lambda m: k(m[1])


def sgn(a, b):
    return (a > b) - (a < b)


def rexp(r, n, d=3, big=False):
    e = [0 if r.random() < .4 else r.randint(0, d) for _ in range(n)]
    if big and r.random() < .1:
        e[r.randrange(n)] = r.randint(5, 14) if r.random() < .7 else r.randint(15, 60)
    return tuple(e)


def rint(r):
    k = r.randint(0, 9)
    if k < 6:
        return r.choice((-1, 1)) * r.randint(1, 9)
    if k < 8:
        return r.choice((-1, 1)) * (r.getrandbits(r.randint(1, 40)) + 1)
    return r.choice((-1, 1)) * (r.getrandbits(200) | 1)


def setup(r, n=None, k=None, kinds=Poly, orders=None):
    """A fresh ring or module; returns (n, k, order name, key)."""
    n = n or (r.randint(1, 4) if r.random() < .85 else r.randint(5, 10))
    k = r.choice((0, 0, 1, 2, 3) if r.random() < .9 else range(4, 13)) if k is None else k
    o = r.choice(orders or (sorted(MORD) if k or r.random() < .5 else sorted(RORD)))
    Monom.cmp = MORD[o] if o in MORD else RORD[o]
    args = [list(VAR[:n])] + ([list(FUN[:k])] if k else [])
    got = kinds.init(*args)
    ok(len(got) == (2 if k else n) and (not k or (len(got[0]), len(got[1])) == (n, k)), "generators", lambda: str(got))
    return n, k, o, okey(o)


def mon(e, pos=-1):
    return Monom(e) if pos < 0 else Monom(e, pos=pos)


def ofmon(m):
    return (m.position(), tuple(m))


# ---------------------------------------------------------------- monomials

def latex(t):
    """What LaTeX shows for the text: a power binds one character or one group."""
    r = []
    for f, v, g, c, d in re.findall(r"\{(\w+)\}(\^\{(\d+)\}|\^(\d))?|(\w+)", t):
        r.append(d if d else (f, int(g or c or 1)))
    if re.sub(r"\{\w+\}(\^\{\d+\}|\^\d)?|\w+|\s", "", t):
        return t
    return r

def monomial(r, size):
    n, k, o, key = setup(r)
    desc("n=%d k=%d %s; " % (n, k, o))
    pool = []

    def new():
        p = r.randint(-1, k - 1)
        e = rexp(r, n, 3, True)
        return mon(e, p), (p, e)

    def check(m, v, where):
        ok(ofmon(m) == v, where, lambda: "%r expected %s" % (m, v))
        ok(len(m) == n and m.degree() == sum(v[1]) and m.position() == v[0], "size", where)
        ok(bool(m) == (v[0] >= 0 or any(v[1])), "zero-test", where)
        ok(m.expand() == [i for i, d in enumerate(v[1]) for _ in range(d)], "expand", where)
        ok(repr(m) == ("[%s]" if v[0] < 0 else "[%d;" % v[0] + "%s]") % " ".join(map(str, v[1])), "repr", where)
        text = "*".join(([FUN[v[0]]] if v[0] >= 0 else []) + ["%s**%d" % (VAR[i], d) if d > 1 else VAR[i] for i, d in enumerate(v[1]) if d]) or "1"
        ok(str(m) == text, "text", lambda: "%s expected %s" % (m, text))
        lat = ([FUN[v[0]]] if v[0] >= 0 else []) + [(VAR[i], d) for i, d in enumerate(v[1]) if d] or ["1"]
        ok(latex(m.latex()) == lat, "latex", lambda: "%s shows %s instead of %s" % (m.latex(), latex(m.latex()), lat))
        if v[0] >= 0:
            a = [FUN[v[0]]]
            for i, d in enumerate(v[1]):
                a += [VAR[i]] * (d > 0) + [str(d)] * (d > 1)
            ok(m.df() == "df(%s)" % ", ".join(a), "df", m.df())
            ok(m.T() == "T(%s)" % ", ".join(a), "T", m.T())
            ds = "%s(%s)" % (FUN[v[0]], ", ".join(VAR[:n])) + (".diff(%s)" % ", ".join(a[1:]) if a[1:] else "")
            ok(m.df_sympy() == ds, "df-sympy", m.df_sympy())
            dl = "{%s}" % FUN[v[0]] + ("_{%s}" % " ".join("{%s}" % VAR[i] for i, d in enumerate(v[1]) for _ in range(d)) if any(v[1]) else "")
            ok(m.df_latex() == dl, "df-latex", m.df_latex())
            ok("".join(m.T_latex().split()).replace("\\,", "") == "{%s}_{%s}" % (FUN[v[0]], "".join("{%s}" % VAR[i] + ("+%d" % d if d else "") for i, d in enumerate(v[1]))), "T-latex", m.T_latex())
        elif not any(v[1]):
            ok(m.df() == "1" and m.T() == "1" and m.df_sympy() == "1" and m.df_latex() == "1" and m.T_latex() == "1", "df-one", where)

    for i in range(n):
        check(Monom(i), (-1, tuple(int(j == i) for j in range(n))), "variable")
    for p in range(k):
        check(Monom(pos=p), (p, (0,) * n), "function")
    check(Monom(), (-1, (0,) * n), "one")
    for _ in range(3):
        pool.append(new())
    for step in range(4 + size % 12):
        (a, va), (b, vb) = r.choice(pool), r.choice(pool)
        op = r.randint(0, 9)
        res = None
        if op == 0:
            if va[0] < 0 or vb[0] < 0:
                res = a * b, (max(va[0], vb[0]), tuple(i + j for i, j in zip(va[1], vb[1])))
            else:
                raises(AssertionError, "mul-two-positions", lambda: a * b)
        elif op == 1:
            d = all(i >= j for i, j in zip(va[1], vb[1])) and vb[0] in (-1, va[0])
            ok(a.divisible(b) == d, "divisible", lambda: "%r %r" % (a, b))
            ok(a.divisibleTrue(b) == (d and va[1] != vb[1]), "divisibleTrue", lambda: "%r %r" % (a, b))
            if d:
                res = a / b, (va[0] if vb[0] < 0 else -1, tuple(i - j for i, j in zip(va[1], vb[1])))
                check(res[0] * b, va, "div-mul")
            else:
                raises(AssertionError, "div-not-divisible", lambda: a / b)
        elif op == 2:
            v = r.randint(0, n - 1)
            res = a.prolong(v), (va[0], va[1][:v] + (va[1][v] + 1,) + va[1][v + 1:])
        elif op == 3:
            q = r.randint(0, 4) if r.random() < .8 else r.randint(5, 40)
            if va[0] < 0:
                res = a ** q, (-1, tuple(i * q for i in va[1]))
            else:
                raises(AssertionError, "pow-position", lambda: a ** q)
        elif op == 4 and (va[0] == vb[0] or -1 in (va[0], vb[0])):
            res = a.lcm(b), (-1, tuple(map(max, va[1], vb[1])))
        elif op == 5 and (va[0] == vb[0] or -1 in (va[0], vb[0])):
            res = a.gcd(b), (-1, tuple(map(min, va[1], vb[1])))
            ok(a.divisible(res[0]) and b.divisible(res[0]), "gcd-divides", lambda: "%r %r" % (a, b))
        elif op == 6:
            res = a.copy(), va
        elif op == 7 and va[0] == vb[0]:
            up = [i for i in range(n) if va[1][i] < vb[1][i]]
            if up:
                ok(a.nonmult(b) == up[0], "nonmult", lambda: "%r %r" % (a, b))
            else:
                raises(AssertionError, "nonmult-none", lambda: a.nonmult(b))
        elif op == 8:
            res = new()
        if res:
            check(res[0], res[1], "op%d" % op)
            pool.append(res)
            seen("%d %s %s %r %r %r" % (op, o, n, va, vb, res[1]))
        # comparisons of any two
        if len(pool) > 9:
            pool.pop(r.randrange(len(pool)))
        (a, va), (b, vb) = r.choice(pool), r.choice(pool)
        if va[0] != vb[0] and o in RORD:
            continue
        c = sgn(key(va), key(vb))
        ok(a.cmp(b) == c, "cmp", lambda: "%r %r %s gave %s" % (a, b, o, a.cmp(b)))
        ok((a < b, a <= b, a > b, a >= b, a == b, a != b) == (c < 0, c <= 0, c > 0, c >= 0, c == 0, c != 0), "comparisons", lambda: "%r %r" % (a, b))
        if c == 0:
            ok(hash(a) == hash(b), "hash", lambda: "%r" % a)
        for s, f in list(RORD.items()) + list(MORD.items()):
            if s in MORD or va[0] == vb[0]:
                kk = okey(s)
                ok(f(a, b) == sgn(kk(va), kk(vb)), "order-" + s, lambda: "%r %r" % (a, b))
        for m, v in pool:
            ok(ofmon(m) == v, "operand-changed", lambda: "%r expected %s" % (m, v))
    d = r.randint(0, 4 if r.random() < .8 else 14 if n < 3 else 8 if n < 4 else 5)
    p = r.randint(-1, k - 1)
    l = [ofmon(m) for m in Monom.gradus(d, p)]
    ok(len(l) == comb(n + d - 1, d) and len(set(l)) == len(l) and all(sum(e) == d and q == p for q, e in l), "gradus", lambda: str(l))


# ---------------------------------------------------------------- polynomials

class Ctx:
    def __init__(self, r, cls=Poly, par=None, n=None, k=None, orders=None):
        self.r, self.cls = r, cls
        self.big = n is None
        self.long = n is None and not par and r.random() < .12
        self.n, self.k, self.o, self.key = setup(r, n or (r.randint(1, 3) if r.random() < .85 else r.randint(4, 7)), k, cls, orders)
        self.par = r.random() < .15 if par is None else par
        self.F = PF if self.par else QF
        desc("%s n=%d k=%d %s%s; " % (cls.__name__, self.n, self.k, self.o, " par" if self.par else ""))

    def coef(self):
        r = self.r
        if not self.par:
            return Fr(rint(r)) if r.random() < .85 else Fr(rint(r), r.randint(1, 9))
        c = self.F.one * 0
        while not c:
            for _ in range(r.randint(1, 2)):
                m = self.F.one * r.choice((-3, -2, -1, 1, 2, 3))
                for g in self.F.K.gens:
                    m *= g ** r.choice((0, 0, 1, 2))
                c += m
        return c

    def rdict(self, terms=4, d=3, mod=None, coef=None):
        r, f = self.r, {}
        for _ in range(r.randint(1, terms if not self.long or r.random() < .5 else 24)):
            p = -1 if not self.k or mod is False else r.randint(0 if mod else -1, self.k - 1)
            f[(p, rexp(r, self.n, d, self.big))] = coef() if coef else self.coef()
        return f

    def build(self, f, fresh=True):
        """f through the library's own operators, or term by term from the shared variables."""
        r = self.r
        p = self.cls()
        for (pos, e), c in f.items():
            t = self.cls(mon(e, pos))
            c = self.F.to(c)
            if c.is_Integer and r.random() < .7:
                c = int(c)
            t = t * c if r.random() < .5 or not isinstance(c, int) else c * t
            p = p + t if r.random() < .7 else t + p
        return p

    def of(self, p):
        d = {}
        for m, c in p:
            k = ofmon(m)
            if k in d:
                raise Fail("repeated-term", "%r" % (p,))
            d[k] = self.F.of(c)
        return d

    def check(self, p, f, where):
        ok(isinstance(p, self.cls), "type", where)
        ts = [ofmon(m) for m, c in p]
        if self.par:
            # expressions may stay unexpanded, so a term may have a coefficient that is zero only after expansion
            d = {m: c for m, c in self.of(p).items() if c}
            ok(d == f, where, lambda: "%s expected %s (%s)" % (p, f, self.o))
            ok(ts == sorted(ts, key=self.key, reverse=True), "sorted", where)
        else:
            want = sorted(f, key=self.key, reverse=True)
            ok(ts == want and all(self.F.of(c) == f[m] for m, (_, c) in zip(want, p)), where,
               lambda: "%r expected %s (%s)" % (p, R.show(f, self.key), self.o))
            ok(all(isinstance(c, sympy.Rational) for _, c in p), "coefficient-type", where)
            ok(bool(p) == bool(f), "zero-test", where)
            if f:
                ok(ofmon(p.lm()) == want[0] and self.F.of(p.lc()) == f[want[0]], "leading-term", where)
        count("polynomials_inspected")


def names(n, k):
    d = {v: Poly(Monom(i)) for i, v in enumerate(VAR[:n])}
    d.update({f: Poly(Monom(pos=i)) for i, f in enumerate(FUN[:k])})
    return d


def history(r, size, inplace):
    """Random operations on a pool; with inplace also the operations that change their target. All objects checked after each."""
    C = Ctx(r)
    pool = []
    for _ in range(3):
        f = C.rdict()
        p = C.build(f)
        C.check(p, f, "build")
        pool.append([p, f])
    env = names(C.n, C.k)
    for step in range(3 + size % 10):
        for t, (p, f) in enumerate(pool):
            if not C.par and any(x.numerator.bit_length() + x.denominator.bit_length() > 3000 for x in f.values()):
                f = C.rdict()
                pool[t] = [C.build(f), f]
        i, j = r.randrange(len(pool)), r.randrange(len(pool))
        (a, fa), (b, fb) = pool[i], pool[j]
        op = r.randint(0, 15 if not inplace else 24)
        desc("%d:%d,%d " % (op, i, j))
        c = r.choice((0, 1, -1, 2, rint(r)))
        z = (-1, (0,) * C.n)
        fc = {z: C.F.one * c} if c else {}
        big = len(fa) > 40 or len(fb) > 40
        res = None
        if op == 0:
            res = a + b, R.add(fa, fb)
        elif op == 1:
            res = a - b, R.add(fa, fb, -1)
        elif op == 2 and not big:
            if all(p < 0 for p, _ in fa) or all(p < 0 for p, _ in fb):
                res = a * b, R.mul(fa, fb)
            elif all(p >= 0 for p, _ in fa) and all(p >= 0 for p, _ in fb) and fa and fb:
                raises(AssertionError, "mul-two-positions", lambda: a * b)
        elif op == 3:
            if r.random() < .5:
                c = Integer(c) if r.random() < .5 else Rational(c, r.choice((1, 2, 6)))
                fc = {z: C.F.one * int(c.p) / int(c.q)} if c else {}
            res = r.choice((lambda: (a + c, R.add(fa, fc)), lambda: (c + a, R.add(fa, fc))))()
        elif op == 4:
            if r.random() < .5:
                c = Integer(c) if r.random() < .5 else Rational(c, r.choice((1, 2, 6)))
                fc = {z: C.F.one * int(c.p) / int(c.q)} if c else {}
            res = (a - c, R.add(fa, fc, -1)) if r.random() < .5 else (c - a, R.add(fc, fa, -1))
        elif op == 5:
            res = (a * c if r.random() < .5 else c * a), R.scale(fa, C.F.one * c)
        elif op == 6:
            c = c or 3
            res = a / c, {m: x / c for m, x in fa.items()}
            q = C.cls(C.F.to(C.F.one * c))
            C.check(c * 6 / q, {z: C.F.one * 6}, "divide-by-constant")
            if len(fa) > 1 and not C.par:
                raises(AssertionError, "divide-by-polynomial", lambda: 2 / a)
        elif op == 7:
            res = -a, R.scale(fa, -1)
        elif op == 8:
            res = +a, dict(fa)
        elif op == 9:
            res = C.cls(a), dict(fa)
        elif op == 10 and not big:
            q = r.randint(0, 3 if len(fa) < 6 else 1)
            if all(p < 0 for p, _ in fa) or q < 2:
                w = {z: C.F.one}
                for _ in range(q):
                    w = R.mul(w, fa)
                res = a ** q, w
        elif op == 11:
            v = r.randrange(C.n)
            e = tuple(int(v == t) for t in range(C.n))
            res = a.prolong(v), R.shift(fa, e)
        elif op == 12:
            e = rexp(r, C.n)
            res = a.mult(Monom(e), Integer(c or 2)), R.shift(fa, e, C.F.one * (c or 2))
        elif op == 13:
            s = a.find(mon(*reversed(r.choice(list(fb))))) if fa and fb else None
            ok(s is None or s is a, "find-returns", "")
            if fa and fb:
                m = r.choice(list(fb))
                l = max(fa, key=C.key)
                if not C.par:
                    ok((a.find(mon(m[1], m[0])) is a) == (l[0] in (-1, m[0]) and all(x <= y for x, y in zip(l[1], m[1]))), "find", "%s %s" % (l, m))
                    ok(a.cmp(b) == sgn(C.key(l), C.key(max(fb, key=C.key))), "cmp", "")
        elif op == 14 and not C.par:
            ok((a == b) == (fa == fb) and (a != b) == (fa != fb), "equality", lambda: "%s %s" % (a, b))
            if all(x.denominator == 1 for x in fa.values()):
                e = eval(str(a), dict(env))
                C.check(Poly(e) if isinstance(e, int) else e, fa, "text")
        elif op == 15 and C.par:
            v = r.randrange(2)
            res = a.diff(PAR[v]), {m: x for m, x in ((m, x.diff(C.F.K.gens[v])) for m, x in fa.items()) if x}
        if op in (18, 19, 20, 21, 23, 24) and inplace and not C.par and i != j and fb and a is not b and not big and len(fb) < 12 and r.random() < .6:
            # a target that contains a multiple of the other polynomial
            e, m = rexp(r, C.n, 2), C.F.one * r.choice((1, -1, 2, 3, 5))
            a, fa = a + b.mult(Monom(e), C.F.to(m)), R.add(fa, R.shift(fb, e, m))
            C.check(a, fa, "multiple-added")
            pool[i] = [a, fa]
        # in-place operations
        if op < 16:
            pass
        elif op == 17 and len(fa) > 2 and not C.par and r.random() < .4 and all(x.denominator == 1 for x in fa.values()):
            # a common factor of all terms but the last ones
            c, ms = r.choice((2, 6, 35, 2 ** 70)), sorted(fa, key=C.key, reverse=True)
            h = r.randint(1, 2)
            fa = {m: fa[m] * (c if i < len(ms) - h else 1) * 3 for i, m in enumerate(ms)}
            a = C.build(fa)
            C.check(a, fa, "build")
            pool[i] = [a, fa]
            a.pp()
            new = C.of(a)
            ok(new == R.scale(fa, 1 / Fr(R.content(fa))), "pp-prefix", lambda: "%r from %s" % (a, R.show(fa)))
            pool[i][1] = new
        elif op in (16, 17) and fa and not C.par and (op == 16 or all(x.denominator == 1 for x in fa.values())):
            # a polynomial cancels and loses its content without changing any other object
            a.cancel() if op == 16 else a.pp()
            new = C.of(a)
            if op == 16:
                k = R.primitive(fa, C.key)
                ok(all(x.denominator == 1 for x in new.values()), "cancel-denominators", lambda: repr(a))
                ok(R.primitive(new, C.key) == k, "cancel-multiple", lambda: repr(a))
                l = max(fa, key=C.key)
                den = 1
                for x in fa.values():
                    den = den * x.denominator // R.gcd(den, x.denominator)
                ok(new == R.scale(fa, den), "cancel-factor", lambda: "%r from %s" % (a, R.show(fa)))
            else:
                ok(all(x.denominator == 1 for x in new.values()) and R.content(new) == 1, "pp-content", lambda: repr(a))
                l = max(fa, key=C.key)
                ok((len(fa) == 1 or (new[l] > 0) == (fa[l] > 0)) and R.primitive(new, C.key) == R.primitive(fa, C.key), "pp-multiple", lambda: "%r from %s" % (a, R.show(fa)))
            pool[i][1] = new
        elif op in (18, 19, 20, 21) and i != j and fa and fb and not big and a is not b:
            l = max(fb, key=C.key)
            if l[0] < 0 and not all(m[0] < 0 for m in list(fa) + list(fb)):
                continue
            ms = [m for m in sorted(fa, key=C.key, reverse=True)]
            if C.par and [ofmon(m) for m, _ in a] != ms or not ofmon(b[0][0]) == l:
                continue
            hit = [t for t, m in enumerate(ms) if R.divides(l, m)]
            if op == 21:
                old = C.of(a)
                a.reduce(b)
                new = C.of(a)
                ok(new == old or (l in old and l not in new), "reduce-term", lambda: repr(a))
                ok((l in old) == (l not in new) or l not in old, "reduce-left", lambda: repr(a))
                hit = [ms.index(l)] if l in old else []
                t = hit[0] if hit else None
            elif hit:
                t = r.choice(hit)
                a.reduction(t, b) if op != 20 else a.redRat(t, b)
                new = C.of(a)
            else:
                continue
            new = {m: x for m, x in new.items() if x}
            if t is None:
                ok(new == fa, "reduce-nothing", lambda: repr(a))
            else:
                m = ms[t]
                s = R.shift(fb, R.quo(m, l))
                one = C.F.one
                ok(m not in new, "reduction-term-left", lambda: repr(a))
                # new == k*fa - (k*fa[m]/fb[l])*s
                want = R.add(fa, R.scale(s, one * (fa[m] / fb[l])), -one)
                if op == 20:
                    ok(new == want, "redRat", lambda: "%r expected %s" % (a, want))
                else:
                    ok(bool(new) == bool(want), "reduction-zero", lambda: "%r expected %s" % (a, want))
                    if want:
                        q = next(iter(want))
                        k = new[q] / want[q] if q in new else 0
                        ok(k != 0 and new == R.scale(want, k), "reduction", lambda: "%r expected multiple of %s" % (a, want))
                        if not C.par:
                            g = R.gcd(int(fa[m]), int(fb[l])) if fa[m].denominator == fb[l].denominator == 1 else 0
                            ok(not g or k == fb[l] / g, "reduction-factor", lambda: "%s %r" % (k, a))
                count("reductions")
            pool[i][1] = new
        elif op == 22 and fa and fb and not C.par:
            l, m = max(fa, key=C.key), max(fb, key=C.key)
            if l[0] == m[0]:
                s = Poly.S(a, b)
                x = tuple(map(max, l[1], m[1]))
                w = R.add(R.shift(fa, R.quo((0, x), l), fb[m]), R.shift(fb, R.quo((0, x), m), fa[l]), -1)
                g = C.of(s)
                ok(bool(w) == bool(g), "S-zero", lambda: "%r" % s)
                if w:
                    q = next(iter(w))
                    ok(q in g and R.scale(w, g[q] / w[q]) == g, "S", lambda: "%r of %s, %s" % (s, R.show(fa), R.show(fb)))
                    ok((l[0], x) not in g, "S-cancel", lambda: "%r" % s)
                res = s, g
        elif op in (23, 24) and fa and not C.par and not big:
            # normal forms by a single polynomial
            if i == j or not fb or a is b or len(fb) > 2 and max(max(m[1]) for m in fa) > 6:
                continue
            l = max(fb, key=C.key)
            if l[0] < 0 and not all(m[0] < 0 for m in list(fa) + list(fb)):
                continue
            if op == 23:
                ret = a.NF(b)
                ok(ret is a, "NF-returns", "")
                new = C.of(a)
                bnd = R.nf(dict(fa), [(l, R.primitive(fb, C.key))], C.key)
                ok(R.primitive(new, C.key) == bnd, "NF-value", lambda: "%r" % a)
                ok(not any(R.divides(l, m) for m in new), "NF-reducible", lambda: "%r" % a)
            elif r.random() < .5:
                a.NFhead(b)
                new = C.of(a)
                ok(not new or not R.divides(l, max(new, key=C.key)), "NFhead-reducible", lambda: "%r" % a)
                ok(not R.nf(R.add(R.nf(fa, [(l, R.primitive(fb, C.key))], C.key), {}), [(l, R.primitive(fb, C.key))], C.key) or new, "NFhead-zero", lambda: "%r" % a)
            else:
                a.NFtail(b)
                new = C.of(a)
                h = max(fa, key=C.key)
                ok(not any(R.divides(l, m) for m in new if m != h) and h in new, "NFtail-reducible", lambda: "%r" % a)
            pr = [(l, R.primitive(fb, C.key))]
            ok(R.nf(new, pr, C.key) == R.nf(fa, pr, C.key) or R.nf(new, pr, C.key) == R.nf(R.scale(fa, -1), pr, C.key), "NF-class", lambda: "%r" % a)
            pool[i][1] = new
        if res:
            C.check(res[0], res[1], "op%d" % op)
            seen("%d %s %s %s" % (op, C.o, sorted(map(str, fa.items())), sorted(map(str, res[1].items()))))
            if r.random() < .7 and len(res[1]) < 60:
                pool.append([res[0], dict(res[1])])
            if len(pool) > 7:
                pool.pop(0)
        elif inplace and op > 15:
            seen("%d %s %s" % (op, C.o, sorted(map(str, pool[i][1].items())) if i < len(pool) else ""))
        for t, (p, f) in enumerate(pool):
            d = C.of(p)
            ok(({m: x for m, x in d.items() if x} if C.par else d) == f, "corrupted", lambda: "operation %d changed another object: %r expected %s" % (op, p, f))
        for v, p in env.items():
            if C.par:
                break
            ok(len(p) == 1, "variable-changed", "")


def poly(r, size):
    history(r, size, False)


def inplace(r, size):
    history(r, size, True)


# ---------------------------------------------------------------- Janet trees

def nonmult(us, u, v):
    return any(w[:v] == u[:v] and w[v] > u[v] for w in us)


def jdiv(us, m):
    n = len(m)
    return [w for w in us if all(m[i] == w[i] or (m[i] > w[i] and not nonmult(us, w, i)) for i in range(n))]


def janet(r, size):
    """Insertion of monomials with removals, on a single tree or a forest."""
    forest = r.random() < .4
    n, k, o, key = setup(r, r.randint(1, 4) if r.random() < .9 else r.randint(5, 6), (r.randint(1, 3) if r.random() < .85 else r.randint(4, 12)) if forest else r.choice((0, 0, 1)), Poly, None)
    T = r.choice((Janet, JanetCache))
    t = Forest(T) if forest else T()
    pos = lambda: r.randrange(k) if forest else (-1 if not k else 0)
    sets = {}
    ok(t.reduction() == 0 and t.count() == 0 and list(t) == [], "fresh-tree", "")
    wraps = {}
    pending = []
    dmax = r.choice((2, 3, 5))
    for step in range(2 + size % 14):
        p = pos()
        e = rexp(r, n, dmax, True)
        w = None
        if pending and r.random() < .6:
            w = pending.pop(r.randrange(len(pending)))
            p, e = ofmon(w.lm)
        us = sets.setdefault(p, set())
        if jdiv(us, e):
            w = t.findWrap(mon(e, p))
            ok(w is not None, "find", lambda: "%s in %s" % (e, us))
            continue
        f = Poly(mon(e, p))
        if not w and r.random() < .5 and any(e):
            l = [(p, x) for x in (rexp(r, n, dmax) for _ in range(2)) if key((p, x)) < key((p, e))]
            for q, x in l:
                f = f + Poly(mon(x, q))
        if w:
            count("prolongations_inserted")
        else:
            w = Wrap(f)
        ok(ofmon(w.lm) == (p, e), "wrap-lm", "%r" % w)
        removed = t.insert([w])
        us.add(e)
        wraps[(p, e)] = w
        gone = {ofmon(x.lm) for x in removed}
        ok(len(gone) == len(removed) and all(wraps.get(ofmon(x.lm)) is x for x in removed), "removed-once", lambda: str(gone))
        ok(all(g[0] == p and all(x >= y for x, y in zip(g[1], e)) and g[1] != e for g in gone), "removed-multiples", lambda: "%s %s" % (e, gone))
        for g in gone:
            us.discard(g[1])
            del wraps[g]
        desc("%s%s-%s " % (p, list(e), sorted(gone)))
        have = [ofmon(x.lm) for x in t]
        ok(sorted(have) == sorted(wraps), "elements", lambda: "%s expected %s" % (have, sorted(wraps)))
        ok(all(wraps[ofmon(x.lm)] is x for x in t), "identity", "")
        ok(t.count() == len(wraps), "count", lambda: "%d expected %d" % (t.count(), len(wraps)))
        mult = 0
        for q, us2 in sets.items():
            for u in us2:
                want = [nonmult(us2, u, v) for v in range(n)]
                ok(wraps[(q, u)].nonmult == want, "marks", lambda: "%s in %s: %s expected %s" % (u, us2, wraps[(q, u)].nonmult, want))
                ok(wraps[(q, u)].multi() == n - sum(want), "multi", "")
        before = t.reduction()
        hits = 0
        for _ in range(6):
            q = pos()
            us2 = sets.get(q, set())
            m = rexp(r, n, dmax + 2) if r.random() < .5 or not us2 else tuple(x + r.choice((0, 0, 1, 3)) for x in r.choice(sorted(us2)))
            d = jdiv(us2, m)
            ok(len(d) <= 1, "oracle", "%s %s" % (us2, m))
            w = t.findWrap(mon(m, q))
            hits += w is not None
            if not d:
                ok(w is None, "find-extra", lambda: "%s found %r in %s" % (m, w, us2))
            else:
                ok(w is wraps[(q, d[0])], "find", lambda: "%s found %r in %s" % (m, w, us2))
            if T is Janet:
                pl = t.find(mon(m, q))
                hits += w is not None
                ok((pl is w.poly) if w else pl is None, "find-poly", "")
            count("lookups")
        ok(t.reduction() == before + hits, "reduction-count", "")
        if forest:
            ok(t.findWrap(mon(rexp(r, n), -1)) is None, "find-outside", "")
        # prolongations that are still to be done
        todo = [(q, u, v) for q, us2 in sets.items() for u in us2 for v in range(n) if wraps[(q, u)].nonmult[v] and not wraps[(q, u)].prolong[v]]
        ds = [sum(u) for q, u, v in todo]
        ok(t.degMinProlong() == (min(ds) if ds else 0), "degMinProlong", lambda: "%s" % todo)
        if todo and r.random() < .3:
            how = r.randint(0, 2)
            if how == 0:
                d = r.choice(ds)
                ps, want = t.prolongDeg(d), [x for x in todo if sum(x[1]) == d]
            elif how == 1:
                ps, want = t.prolongAll(), todo
            else:
                m = r.choice(todo)
                bound = (m[0], m[1][:m[2]] + (m[1][m[2]] + 1,) + m[1][m[2] + 1:])
                ps = t.prolongMonom(mon(bound[1], bound[0]))
                want = [x for x in todo if key((x[0], x[1][:x[2]] + (x[1][x[2]] + 1,) + x[1][x[2] + 1:])) <= key(bound)]
            got = sorted((ofmon(x.lm), ofmon(x.ansector)) for x in ps)
            exp = sorted(((q, u[:v] + (u[v] + 1,) + u[v + 1:]), ofmon(wraps[(q, u)].ansector)) for q, u, v in want)
            ok(got == exp, "prolongations", lambda: "%s expected %s" % (got, exp))
            ok(all(wraps[(q, u)].prolong[v] for q, u, v in want), "prolong-marks", "")
            ok(sum(sum(w.prolong) for w in wraps.values()) == len(want) + sum(1 for q, us2 in sets.items() for u in us2 for v in range(n)
               if wraps[(q, u)].prolong[v] and (q, u, v) not in want), "prolong-others", "")
            for x in ps:
                ok(not any(x.prolong) and not any(x.nonmult), "prolong-new", "")
            pending += ps
        gbs = [ofmon(x.lm) for x in t.GB()]
        ok(sorted(gbs) == sorted(q for q, x in wraps.items() if ofmon(x.ansector) == q), "GB-list", "")
        if r.random() < .3:
            ws = sorted(wraps.values(), key=lambda x: x.id)
            x, y = r.choice(ws), r.choice(ws)
            ok((x == y) == (x is y) and (x != y) == (x is not y), "wrap-equal", lambda: "%r %r" % (x, y))
            # the text of an element tells its marks, leading monomial and beginning
            for show in (str, repr):
                l = [i.split(": ", 1) for i in show(x).split("\n")]
                ok([i[0].strip() for i in l] == ["id", "ansector", "lm", "prolong", "nonmult", "poly"], "wrap-text", lambda: "%r" % l)
                ok(l[0][1] == str(x.id) and l[1][1] == show(x.ansector) and l[2][1] == show(x.lm), "wrap-text", lambda: "%r" % l)
                ok([[i == "*" for i in q[1].split()] for q in l[3:5]] == [x.prolong, x.nonmult], "wrap-text-marks", lambda: "%r" % l)
                f = show(x.poly)
                ok(l[5][1] == f or (l[5][1].endswith(" ...") and len(f) > 60 and f.startswith(l[5][1][:-4])), "wrap-text-poly", lambda: "%r" % l)
        # the Hilbert polynomial subtracts exactly the cones of the elements
        for q in (range(k) if forest else (None,)):
            us2 = sets.get(q if forest else (-1 if not k else 0), set())
            hp = (t[q] if forest else t).HP()
            for s in (r.randint(0, 9), 20):
                want = comb_poly(n, s) - sum(comb_poly(n - sum(nonmult(us2, u, v) for v in range(n)), s - sum(u)) for u in us2)
                ok(hp.subs(s) == want, "cones", lambda: "%s at %d expected %s, %s" % (hp, s, want, us2))
        if forest:
            v, at = r.choice((None, -1, r.randint(0, k))), r.randint(0, 20)
            hp = t.HP() if v is None else t.HP(verge=v)
            want = sum(t[q].HP().subs(at) for q in range(k if v is None or v < 0 else v))
            ok(hp.subs(at) == want, "forest-cones", lambda: "%s at %d expected %s, %s of %d" % (hp, at, want, v, k))
        seen("%s %s" % (sorted(wraps), forest))


class GV:
    """Stands in for graphviz's scripting module and records the diagram."""

    def __init__(self):
        self.nodes, self.edges, self.done = {}, [], None

    def graph(self, name):
        ok(self.done is None and not self.nodes, "one-graph", name)
        return ("graph", self)

    def node(self, g, name):
        ok(g == ("graph", self), "node-of-graph", name)
        return self.nodes.setdefault(name, {"name": name})

    def edge(self, a, b):
        e = {"from": a["name"], "to": b["name"]}
        self.edges.append(e)
        return e

    def setv(self, x, k, v):
        ok(isinstance(k, str) and isinstance(v, str), "attribute-text", "%r %r" % (k, v))
        if isinstance(x, dict):
            x[k] = v
        return v

    def layout(self, g, how):
        ok(how == "dot", "layout", how)
        return True

    def render(self, g, fmt, name):
        ok(self.done is None, "rendered-once", name)
        self.done = (fmt, name)
        return True


def lines(label):
    """(bold, lines of text) of a label."""
    if label.startswith("<") and label.endswith(">"):
        x = label[1:-1]
        bold = "<B>" in x
        return bold, [" ".join(l.split()) for l in x.replace("<B>", "").replace("</B>", "").split("<BR/>")]
    return False, [label]


def picture(r, size):
    """Diagrams of Janet trees, drawn with a recording stand-in for graphviz."""
    n, k, o, key = setup(r, r.randint(1, 4) if r.random() < .9 else r.randint(5, 6), r.choice((0, 0, 1, 2)), Poly, None)
    t = r.choice((Janet, JanetCache))()
    p = -1 if not k else r.randrange(k)
    for step in range(r.choice((0, 1, 2 + size % 10, 2 + size % 16))):
        e = rexp(r, n, r.choice((2, 3, 5)), True)
        if t.findWrap(mon(e, p)):
            continue
        t.insert([Wrap(Poly(mon(e, p)))])
        desc(list(e))
        if r.random() < .3:
            q = [w for w in t.prolongAll() if not t.findWrap(w.lm)] if r.random() < .5 else []
            if not q:
                d = t.degMinProlong()
                q = t.prolongDeg(d) if d else []
            for w in q[:6]:
                if not t.findWrap(w.lm):
                    t.insert([w])
                    desc("+%s" % list(ofmon(w.lm)[1]))
    level = r.randint(0, 3)
    ws = list(t)
    if r.random() < .4:  # marks outlive the tree in which they were made
        for w in ws:
            if r.random() < .5:
                w.prolong[r.randrange(n)] = True
    us = [ofmon(w.lm)[1] for w in ws]
    state = [(w, ofmon(w.lm), list(w.nonmult), list(w.prolong), ofmon(w.ansector)) for w in ws]

    def label(w):
        l = [repr(w.lm)]
        if level >= 1:
            l.append(" ".join("*" if i else "_" for i in w.nonmult))
        if level >= 2:
            l.append(" ".join("*" if i else "_" for i in w.prolong))
        if level >= 3:
            l.append(repr(w.ansector))
        return ofmon(w.lm) == ofmon(w.ansector), [" ".join(x.split()) for x in l]

    def tree(members, v):
        """Elements grouped by the degrees of their variables, [label, children] by increasing degree."""
        out = []
        for d in sorted({us[i][v] for i in members}):
            g = [i for i in members if us[i][v] == d]
            last = [i for i in g if not any(us[i][v + 1:])]
            if last:
                ok(len(g) == 1, "oracle", str(us))
                out.append((label(ws[last[0]]), []))
            else:
                out.append(((False, [str(d)]), tree(g, v + 1)))
        return out

    fake, old = GV(), sys.modules.get("gv")
    name = "picture-%d.%s" % (r.randint(0, 99), r.choice(("pdf", "svg", "png")))
    sys.modules["gv"] = fake
    try:
        if level == 0 and r.random() < .5:
            t.saveImage(name)
        else:
            t.saveImage(name, level=level)
    finally:
        del sys.modules["gv"]
        if old is not None:
            sys.modules["gv"] = old
    if r.random() < .1:
        sys.modules["gv"] = None  # graphviz is missing: a message and nothing else
        ok(t.saveImage(name) is None, "without-graphviz", "")
        del sys.modules["gv"]
        count("without_graphviz")
    ok(fake.done == (name.split(".")[-1], name), "rendered", str(fake.done))
    ok([(w, ofmon(w.lm), list(w.nonmult), list(w.prolong), ofmon(w.ansector)) for w in t] == state, "drawing-changed-the-tree")
    inn = {}
    for e in fake.edges:
        ok(inn.setdefault(e["to"], e) is e, "drawn-indegree", str(us))
        ok(e.get("dir") == "forward" and e.get("style") in ("solid", "dotted"), "drawn-edge", str(e))
    heads = [x for x in fake.nodes.values() if "#" in x.get("label", "")]
    ok(len(heads) == 1, "drawn-header", str(us))
    top = max([sum(u) for u in us], default=0)
    ok(lines(heads[0]["label"])[1] == ["#Janet = %d" % len(us), " ".join(("HP_{%d} = %s" % (top, t.HP())).split())], "drawn-header", lambda: "%s for %s" % (heads[0], us))
    ok(heads[0]["name"] not in inn and all(e["from"] != heads[0]["name"] for e in fake.edges), "drawn-header-linked", "")
    done = set()

    def drawn(x):
        """The chain that starts at x."""
        out = []
        while x is not None:
            ok(x["name"] not in done, "drawn-twice", str(us))
            done.add(x["name"])
            kids = {}
            for e in fake.edges:
                if e["from"] == x["name"]:
                    ok(e["style"] not in kids, "drawn-children", str(us))
                    kids[e["style"]] = fake.nodes[e["to"]]
            out.append((lines(x["label"]), drawn(kids.get("dotted"))))
            x = kids.get("solid")
        return out

    roots = [x for x in fake.nodes.values() if x is not heads[0] and x["name"] not in inn]
    ok(len(roots) == (1 if us else 0), "drawn-roots", lambda: "%s for %s" % (roots, us))
    want = tree(range(len(us)), 0)
    got = drawn(roots[0]) if roots else []
    ok(got == want, "drawn-tree", lambda: "%s expected %s" % (got, want))
    ok(len(done) + 1 == len(fake.nodes), "drawn-nodes", str(us))
    count("drawn_nodes", len(done))
    seen("%s %d" % (sorted(us), level))


def comb_poly(m, s):
    """The polynomial binomial(s + m, m) at any integer s."""
    x = Fr(1)
    for i in range(1, m + 1):
        x *= Fr(s + i, i)
    return x


def hilbert(r, size):
    n, d = r.randint(1, 8), r.randint(-2, 9)
    c = CombRepet(n, d)
    ok(len(c) == n, "binomial-length", "%d %d %s" % (n, d, list(c)))
    for s in (0, 1, 7, r.randint(0, 10 ** 6)):
        ok(c.subs(s) == comb_poly(n - 1, s - d), "binomial", lambda: "%d %d %s" % (n, d, list(c)))
    e = CombRepet(n, d)
    ok(list(e) == list(c), "binomial-again", "")
    h = HilbertPoly(n, init=r.random() < .5)
    ref = [Fr(int(sympy.Rational(x).p), int(sympy.Rational(x).q)) for x in h]
    val = {s: sum(x * s ** i for i, x in enumerate(ref)) for s in (0, 3, 11)}
    if any(ref):
        for s in val:
            ok(val[s] == comb_poly(n, s), "initial", "")
    hist = []
    for _ in range(r.randint(1, 6)):
        if r.random() < .6:
            m, d = r.randint(1, n + 1), r.randint(-1, 6)
            h -= CombRepet(m, d)
            for s in val:
                val[s] -= comb_poly(m - 1, s - d)
            hist.append((m, d))
        else:
            g = HilbertPoly(n, init=r.random() < .7)
            o = list(g)
            for s in val:
                val[s] += g.subs(s)
            h += g
            ok(list(g) == o, "operand-changed", "")
            hist.append("+")
        for s in val:
            ok(h.subs(s) == val[s], "value", lambda: "%d %s" % (n, hist))
    t = str(h)
    x = sympy.symbols("s")
    e = sympy.sympify(t.replace("^", "**").replace("s", "*s").replace("+ *s", "+ s").replace("- *s", "- s").lstrip("*").replace("-*s", "-s"), {"s": x})
    ok(all(e.subs(x, s) == val[s] for s in val), "text", lambda: "%s %s" % (t, list(h)))
    ok(all(list(CombRepet(m, d)) == list(CombRepet(m, d)) and CombRepet(m, d).subs(5) == comb_poly(m - 1, 5 - d) for m, d in [z for z in hist if z != "+"]), "binomial-changed", "")
    seen("%d %s" % (n, hist))


# ---------------------------------------------------------------- bases

def run(alg, fs, t, r):
    lev = r.choice((0, 0, 1))
    with contextlib.redirect_stdout(io.StringIO()) as out:
        res = getattr(G, alg)(fs, t, level=lev) if lev else getattr(G, alg)(fs, t)
    ok(lev or not out.getvalue(), "prints", "")
    ok(len(res) == 3 and res[0] >= 0 and all(isinstance(x, int) and x >= 0 for x in res[1:]), "result", str(res))
    return res


def inspect(t, C, want, ops, n, forest):
    """The Janet basis against the reduced basis want {lm: monic element}."""
    els = []
    for w in t:
        f = C.of(w.poly)
        f = {m: x for m, x in f.items() if x}
        ok(f and ofmon(w.poly.lm()) == max(f, key=C.key) == ofmon(w.lm), "element-lm", lambda: "%s" % w)
        els.append((w, ofmon(w.lm), f))
    lms = [m for _, m, _ in els]
    ok(len(set(lms)) == len(lms), "repeated-lm", lambda: str(lms))
    mins = [m for m in lms if not any(R.divides(x, m) and x != m for x in lms)]
    ok(sorted(mins) == sorted(want), "leading-monomials", lambda: "%s expected %s" % (sorted(mins), sorted(want)))
    g = list(want.items())
    for w, m, f in els:
        ok(not ops.nf(ops.monic(f), g), "element-outside", lambda: "%s" % w.poly)
    byp = {}
    for m in lms:
        byp.setdefault(m[0], set()).add(m[1])
    for w, m, f in els:
        us = byp[m[0]]
        ok(w.nonmult == [nonmult(us, m[1], v) for v in range(n)], "marks", lambda: "%s" % w)
        for v in range(n):
            if nonmult(us, m[1], v):
                e = m[1][:v] + (m[1][v] + 1,) + m[1][v + 1:]
                ok(jdiv(us, e), "prolongation-uncovered", lambda: "%s by %d in %s" % (m, v, us))
        for x in f:
            if x != m and x[0] in byp:
                ok(not jdiv(byp[x[0]], x[1]), "tail-reducible", lambda: "%s has %s" % (w.poly, x))
        if not C.par:
            ok(all(x.denominator == 1 for x in f.values()) and R.content(f) == 1, "element-primitive", lambda: "%s" % w.poly)
    ok(t.count() == len(els), "count", "")
    gb = [ofmon(w.lm) for w in t.GB()]
    ok(len(set(gb)) == len(gb) and set(gb) <= set(lms), "GB-elements", "")
    ok(set(want) == set(gb), "GB-reduced", lambda: "%s flagged of %s, reduced %s" % (gb, lms, sorted(want)))
    return els


def gencoef(C):
    r = C.r
    if C.par:
        return lambda: C.F.one * r.choice((-2, -1, 1, 1, 2)) * r.choice((1, 1, C.F.K.gens[0], C.F.K.gens[1], C.F.K.gens[0] + 1))
    s = r.random()
    if s < .6:
        return lambda: Fr(r.choice((-2, -1, -1, 1, 1, 3)))
    if s < .9:
        return lambda: Fr(r.choice((-1, 1)) * r.randint(1, 30))
    return lambda: Fr(r.choice((-1, 1)) * r.randint(1, 5), r.randint(1, 4))


def classic(C):
    """cyclic, katsura-like, symmetric and binomial systems in a random arrangement of the variables."""
    r, n = C.r, C.n
    x = [{(-1, tuple(int(i == j) for j in range(n))): C.F.one} for i in r.sample(range(n), n)]
    one = {(-1, (0,) * n): C.F.one}
    kind = r.randint(0, 4)
    fs = []

    def prod(l):
        p = one
        for a in l:
            p = R.mul(p, a)
        return p
    if kind == 0:
        for d in range(1, n):
            s = {}
            for i in range(n):
                s = R.add(s, prod([x[(i + j) % n] for j in range(d)]))
            fs.append(s)
        fs.append(R.add(prod(x), one, -1))
    elif kind == 1:
        for m in range(n - 1):
            s = R.scale(x[m], -1)
            for l in range(-n + 1, n):
                if abs(m - l) < n:
                    s = R.add(s, R.mul(x[abs(l)], x[abs(m - l)]))
            fs.append(s)
        s = R.scale(one, -1)
        for l in range(-n + 1, n):
            s = R.add(s, x[abs(l)])
        fs.append(s)
    elif kind == 2:
        for d in range(1, r.randint(2, 3) + 1):
            s = R.scale(one, C.F.one * r.randint(-3, 3))
            for y in x:
                s = R.add(s, prod([y] * d))
            fs.append(s)
    elif kind == 3:
        for _ in range(r.randint(2, 4)):
            a, b = rexp(r, n, 3), rexp(r, n, 3)
            if a != b:
                fs.append({(-1, a): C.F.one, (-1, b): -C.F.one})
    else:
        # points: products of linear factors
        for y in x:
            fs.append(prod([R.add(y, one, C.F.one * r.randint(-2, 2)) for _ in range(r.randint(1, 3))]))
        fs.append(R.add(R.mul(x[0], x[1]), x[-1], C.F.one * r.randint(-2, 2)))
    return [f for f in fs if f] or [one]


def _exponents(n, d):
    if n == 1:
        yield (d,)
    else:
        for i in range(d + 1):
            for e in _exponents(n - 1, d - i):
                yield (i,) + e


def systems(C, size):
    r, n = C.r, C.n
    if C.k == 0 and not C.par and n > 2 and r.random() < .15:
        return classic(C)
    k = r.randint(2, 3 + size % 2) if r.random() < .9 else 1
    big = n < 4 and not C.par and r.random() < .25  # binomials: large bases with small coefficients
    d = r.choice((2, 3, 4, 5)) if big else r.choice((1, 2, 2, 3, 4)) if n < 3 else r.choice((1, 2, 2, 3)) if n < 4 else r.choice((1, 1, 2))
    co = gencoef(C)
    fs = []
    if not C.par and C.k < 4 and 1 < n < 4 and r.random() < .05:
        # many generators of the same degree
        d = r.randint(2, 4 if n == 2 else 2)
        l = [(p, m) for p in (range(C.k) if C.k else (-1,)) for m in (tuple(e) for e in _exponents(n, d))]
        for _ in range(r.randint(4, 9)):
            fs.append({m: C.F.one * r.choice((-2, -1, 1, 2)) for m in r.sample(l, min(len(l), r.randint(1, 4)))})
        return fs
    if n > 4:
        # many variables, few of them in each polynomial
        k, d = r.randint(1, 4), r.choice((1, 1, 1, 2))
    if C.k > 1 and r.random() < .3:
        # the syzygies of polynomials: f*p[i] - u[i]
        u = list(range(C.k))
        r.shuffle(u)
        d = r.choice((1, 1, 2))
        for i in range(1, C.k):
            p = {(u[0], m[1]): c for m, c in C.rdict(r.choice((1, 2, 3)), d, False, co).items()}
            p[u[i], (0,) * n] = C.F.one * r.choice((1, -1, -1, 2))
            fs.append(p)
        return fs
    if r.random() < .3:
        # combinations sharing a common part, binomials, squares
        a = C.rdict(3, d, bool(C.k), co)
        for _ in range(k):
            b = C.rdict(2, 1, False, co)
            c = R.add(R.mul(b, a), C.rdict(2, d, bool(C.k), co) if r.random() < .6 else {})
            if c:
                fs.append(c)
    while len(fs) < k:
        fs.append(C.rdict(r.choice((1, 2, 3, 3, 4)) if not big else r.choice((1, 2, 2, 2, 2)), d, bool(C.k), (lambda: C.F.one * r.choice((1, -1))) if big else co))
    if r.random() < .25:
        c = R.add(r.choice(fs), r.choice(fs), C.F.one * r.choice((1, -2)))
        if c:
            fs.append(c)
    if r.random() < .85:
        # keep the system proper: a common zero of all polynomials, or no terms of degree zero
        pt = [r.choice((0, 0, 1, -1, 2)) for _ in range(n)]
        for i, f in enumerate(fs):
            if C.k:
                if r.random() < .7:
                    fs[i] = {m: c for m, c in f.items() if any(m[1])}
            else:
                s = C.F.zero
                for (_, e), c in f.items():
                    for x, d in zip(pt, e):
                        c = c * x ** d
                    s += c
                fs[i] = R.add(f, {(-1, (0,) * n): C.F.one}, -s) if s else f
    return [f for f in fs if f] or [{(0 if C.k else -1, (1,) * n): C.F.one}]


def sizes(want, n, C):
    """Skip systems whose Janet basis is too large for the library to finish fast."""
    try:
        R.janet_completion_size(list(want), n, 40 if not C.par else 10)
    except R.TooBig:
        raise Skip("size")


def bases(r, size, module, par):
    alg = r.choice(("ginvMin", "ginvMin", "ginvBlockLow"))
    C = Ctx(r, par=par, n=r.choice((1, 2, 2, 3, 3, 3, 4) if r.random() < .93 else (5, 6)) if not par else r.randint(1, 3), k=(r.randint(1, 3) if r.random() < .92 else r.randint(4, 7)) if module else 0,
            orders=sorted(MORD) if alg == "ginvMin" else ["TOPdeglex"])
    fs = systems(C, size)
    ops = Ops(C.F, C.key, budget=4000 if not par else 150, growth=30 if not par else 7)
    desc(" | ".join(R.show(f, C.key) for f in fs) if not par else str(fs))
    try:
        want = ops.buchberger(fs)
        sizes(want, C.n, C)
    except TooBig:
        raise Skip("oracle")
    ops.budget, ops.growth = 10 ** 6, 10 ** 6
    inp = [C.build(f) for f in fs]
    if r.random() < .2 and len(inp) > 1:
        # operands made from one another must stay independent
        inp.append(inp[0] + inp[1])
        if not inp[-1]:
            inp.pop()
    T = r.choice((Janet, JanetCache)) if not par else Janet
    t = Forest(T) if module else T()
    desc(" %s %s" % (alg, T.__name__))
    run(alg, tuple(inp), t, r)
    els = inspect(t, C, want, ops, C.n, module)
    count("bases")
    count("elements", len(els))
    count("bases_of_%s" % ("1" if len(els) < 2 else "2-4" if len(els) < 5 else "5-9" if len(els) < 10 else "10+"))
    seen("%s %s %s %s" % (C.o, alg, T.__name__, sorted(want)))
    whole = any(not any(m[1]) for m in want) and not module
    # normal forms
    g = list(want.items())
    for _ in range(2):
        f = C.rdict(3, 3, bool(C.k), gencoef(C))
        if r.random() < .4:
            f = R.mul(f, {(-1, (0,) * C.n): C.F.one}) if C.k else R.mul(f, r.choice(fs))
            if C.k:
                f = R.mul(C.rdict(2, 2, False, gencoef(C)), r.choice(fs))
        if not f:
            continue
        ref = bounded(ops, f, g, 400 if not par else 40, 30 if not par else 7)
        if ref is None:
            continue
        p = C.build(f)
        q = p.NF(t)
        nfv = {m: x for m, x in C.of(q).items() if x}
        ok(nfv == ref, "normal-form", lambda: "%s of %s" % (q, f))
        if not par:
            ok(len(q) == len(nfv), "normal-form-zero-terms", "")
        p = C.build(f)
        p.NFhead(t)
        h = {m: x for m, x in C.of(p).items() if x}
        ok(bool(h) == bool(nfv), "head-form", lambda: "%s" % p)
        ok(not h or not any(R.divides(m, max(h, key=C.key)) for m in want), "head-form-reducible", lambda: "%s" % p)
    for (w, m, f) in els:
        ok({m: x for m, x in C.of(w.poly).items() if x} == f, "basis-changed", "")
    # Hilbert polynomial: standard monomials up to a large degree
    hp = t.HP()
    D = max([sum(m[1]) for m in want]) * C.n + 3
    for s in (D, D + 1):
        ok(hp.subs(s) == sum(R.standard(list(want), C.n, q, s) for q in (range(C.k) if module else (-1,))), "hilbert", lambda: "%s at %d" % (hp, s))
    if module:
        for q in range(C.k):
            ok(t[q].HP().subs(D) == R.standard(list(want), C.n, q, D), "hilbert-component", "")
        v = r.randint(0, C.k)
        ok(t.HP(verge=v).subs(D) == sum(R.standard(list(want), C.n, q, D) for q in range(v)), "hilbert-verge", "")


def bounded(ops, f, g, budget, growth):
    """The normal form, or None when it is too expensive."""
    old = ops.budget, ops.growth
    ops.budget, ops.growth = budget, growth
    try:
        return ops.nf(f, g)
    except TooBig:
        count("skip:normal-form")
    finally:
        ops.budget, ops.growth = old


def ideals(r, size):
    bases(r, size, False, False)


def modules(r, size):
    bases(r, size, True, False)


def params(r, size):
    bases(r, size, r.random() < .4, True)


# ---------------------------------------------------------------- differential and difference polynomials

class DCtx:
    """Differential polynomials with coefficients in QQ(x, ..), or difference polynomials with constant parameters."""

    def __init__(self, r, cls, n=None, k=None, var=False, orders=None):
        self.r, self.cls = r, cls
        self.big = n is None
        self.n, self.k, self.o, self.key = setup(r, n or (r.randint(1, 3) if r.random() < .9 else 5), k or r.randint(1, 2), cls, orders or sorted(MORD))
        names = list(VAR[:self.n])
        self.v, self.u = cls.init(names, list(FUN[:self.k]))
        self.par = True
        self.variable = var
        self.F = Field(self.v if cls is PolyDiff else PAR)
        desc("%s n=%d k=%d %s; " % (cls.__name__, self.n, self.k, self.o))

    of = Ctx.of

    def coef(self, rational=False):
        r, g = self.r, self.F.K.gens
        c = self.F.one * r.choice((-2, -1, 1, 1, 1, 3))
        if self.variable or self.cls is PolySchem:
            for x in g:
                if r.random() < .25:
                    c *= x ** r.choice((1, 1, 2))
            if r.random() < .2:
                c += 1
            if rational and r.random() < .2:
                c /= r.choice(g) + r.choice((0, 0, 1))
        return c if c else self.F.one

    def rdict(self, terms, d, hom=True, rational=False):
        r, f = self.r, {}
        for _ in range(r.randint(min(2, terms), terms)):
            f[(r.randrange(self.k), rexp(r, self.n, d, self.big))] = self.coef(rational)
        if not hom:
            f[(-1, (0,) * self.n)] = self.coef(rational)
        return f

    def build(self, f):
        p = self.cls()
        for (q, e), c in f.items():
            t = self.term(q, e) if q >= 0 else None
            c = self.F.to(c)
            if self.cls is PolyDiff and self.r.random() < .3:
                c = sympy.factor(c)
            p = p + (t * c if t is not None else self.cls(c))
        return p

    def term(self, q, e):
        a = [self.u[q]]
        for i, d in enumerate(e):
            if d == 1 and self.r.random() < .6:
                a.append(self.v[i])
            elif d and self.r.random() < .7:
                a += [self.v[i], d]
            else:
                a += [self.v[i]] * d
        return (self.cls.df if self.cls is PolyDiff else self.cls.T)(*a)

    def expr(self, f):
        """f as a sympy expression in unknown functions."""
        s = sympy.Integer(0)
        for (q, e), c in f.items():
            t = sympy.Integer(1) if q < 0 else self.u[q](*self.v)
            for i, d in enumerate(e):
                if d and q >= 0:
                    t = sympy.Derivative(t, (self.v[i], d)) if not isinstance(t, sympy.Derivative) else t.diff(self.v[i], d)
            s = s + self.F.to(c) * t
        return s


def zero(f):
    return {m: x for m, x in f.items() if x}


def diffpoly(r, size):
    """Construction, conversion, prolongation and arithmetic of differential polynomials."""
    C = DCtx(r, PolyDiff, var=r.random() < .7)
    f = C.rdict(3, 2, r.random() < .6, True)
    p = C.build(f)
    ops = Ops(C.F, C.key, diff=True)

    def check(p, f, where):
        ok(isinstance(p, PolyDiff), "type", where)
        ts = [ofmon(m) for m, _ in p]
        ok(ts == sorted(ts, key=C.key, reverse=True), "sorted", where)
        ok(zero(C.of(p)) == f, where, lambda: "%s expected %s" % (p, f))
    check(p, f, "build")
    e = C.expr(f)
    q = PolyDiff.diff2poly(e)
    check(q, f, "from-sympy")
    back = eval(p.df_sympy(), {**{str(v): v for v in C.v}, **{str(u): u for u in C.u}}) if all(len(c.args) < 2 or c.func != sympy.Add for _, c in p) else None
    if back is not None:
        ok(sympy.simplify(sympy.expand(back - e)) == 0 if False else sympy.expand((back - e).doit()) == 0, "df-sympy", lambda: "%s %s" % (back, e))
        env = {str(v): v for v in C.v}
        env.update({str(u): u for u in C.u})
        env["df"] = PolyDiff.df
        t = eval(str(p), env)
        check(t if isinstance(t, PolyDiff) else PolyDiff(sympy.sympify(t)), f, "text")
    v = r.randrange(C.n)
    d = p.prolong(v)
    check(d, ops.prolong(f, v), "prolong")
    check(p, f, "prolong-operand")
    x = PolyDiff.diff2poly(sympy.expand(sympy.diff(e, C.v[v])))
    ok(zero(C.of(x)) == zero(C.of(d)), "prolong-sympy", lambda: "%s %s" % (x, d))
    g = C.rdict(2, 2, True)
    q = C.build(g)
    check(p + q, R.add(f, g), "add")
    check(p - q, R.add(f, g, -1), "sub")
    z = p - C.build(f)
    ok(not zero(C.of(z)) and (z or str(z) == "0"), "zero", lambda: "%r" % z)
    c = C.coef(True)
    check(p * C.F.to(c), R.scale(f, c), "scale")
    check(-p, R.scale(f, -1), "neg")
    h = PolyDiff(p)
    check(p.diff(C.v[v]), zero({m: C.F.diff(x, v) for m, x in f.items()}), "diff")
    # primitive: no denominators, then coprime polynomial coefficients
    h.cancel()
    hc = C.of(h)
    ok(all(x.denom.is_ground for x in hc.values()), "cancel-denominators", lambda: str(h))
    ok(ops.monic(zero(hc)) == ops.monic(f), "cancel-multiple", lambda: str(h))
    h.pp()
    hc = C.of(h)
    ok(all(x.denom == 1 for x in hc.values()), "pp-denominators", lambda: str(h))
    gg, ic = None, 0
    for x in hc.values():
        gg = x.numer if gg is None else gg.gcd(x.numer)
        for c in x.numer.coeffs():
            c = Fr(int(c.numerator), int(c.denominator))
            ic = R.gcd(ic, int(c)) if c.denominator == 1 and isinstance(ic, int) else 0.5
    # coprime over QQ[x], with integer coefficients without a common factor
    ok(gg.is_ground and ic == 1, "pp-content", lambda: "%s gcd %s content %s" % (h, gg, ic))
    ok(ops.monic(hc) == ops.monic(f), "pp-multiple", lambda: str(h))
    check(p, f, "operand-changed")
    seen("%s %s %s" % (C.o, sorted(map(str, f.items())), v))


def schempoly(r, size):
    C = DCtx(r, PolySchem)
    f = C.rdict(3, 2)
    p = C.build(f)
    ops = Ops(C.F, C.key)

    def check(p, f, where):
        ok(isinstance(p, PolySchem), "type", where)
        ts = [ofmon(m) for m, _ in p]
        ok(ts == sorted(ts, key=C.key, reverse=True), "sorted", where)
        ok(zero(C.of(p)) == f, where, lambda: "%s expected %s" % (p, f))
    check(p, f, "build")
    if all(c.func != sympy.Add for _, c in p):
        env = {str(v): v for v in C.v}
        env.update({str(u): u for u in C.u})
        env.update({str(a): a for a in PAR})
        env["T"] = PolySchem.T
        check(eval(str(p), env), f, "text")
    v = r.randrange(C.n)
    check(p.prolong(v), ops.prolong(f, v), "prolong")
    g = C.rdict(2, 2)
    q = C.build(g)
    check(p + q, R.add(f, g), "add")
    check(p - q, R.add(f, g, -1), "sub")
    z = p - C.build(f)
    ok(not zero(C.of(z)) and (z or str(z) == "0"), "zero", lambda: "%r" % z)
    check(p, f, "operand-changed")
    seen("%s %s %s" % (C.o, sorted(map(str, f.items())), v))


def opbasis(r, size, cls, variable):
    """Bases of linear differential or difference systems; with variable coefficients every input annihilates a known function."""
    alg = r.choice(("ginvMin", "ginvBlockLow"))
    C = DCtx(r, cls, n=r.choice((1, 2, 2, 3)) if not variable else r.choice((1, 2, 2)), var=variable,
             orders=sorted(MORD) if alg == "ginvMin" else ["TOPdeglex"])
    desc(alg + " ")
    ops = Ops(C.F, C.key, diff=cls is PolyDiff, budget=100, growth=7)
    k = r.choice((1, 2, 2, 3))
    d = r.choice((1, 2, 2) if not variable else (1, 1, 2))
    high = not variable and C.n < 3 and r.random() < .3
    if high:
        # few equations of high order
        k, d = r.choice((1, 2)), r.choice((5, 6, 8, 9) if C.n == 1 else (4, 5, 6))
    fs = []
    hom = cls is PolySchem or r.random() < .7
    if variable:
        # u_i = known rational function of the variables: choose the last coefficient so that the equation holds
        sol = []
        for _ in range(C.k):
            s = C.F.one
            for x in C.F.K.gens:
                s *= (x + r.choice((0, 0, 1))) ** r.choice((0, 1, 2, -1))
            sol.append(s + r.choice((0, 0, 1)))

        def at(m):
            s = sol[m[0]]
            for i, e in enumerate(m[1]):
                for _ in range(e):
                    s = C.F.diff(s, i)
            return s
        for _ in range(k):
            if r.random() < .4:
                # sol * (derivative of u) - (derivative of sol) * u
                q, e = r.randrange(C.k), rexp(r, C.n, d)
                if any(e) and at((q, e)):
                    fs.append({(q, e): sol[q], (q, (0,) * C.n): -at((q, e))})
                    continue
            f = C.rdict(3, d)
            tot = C.F.zero
            for m, c in f.items():
                tot += c * at(m)
            if tot and not hom:
                f[(-1, (0,) * C.n)] = -tot
            elif tot:
                m = (r.randrange(C.k), rexp(r, C.n, d))
                a = at(m)
                if not a:
                    m = (m[0], (0,) * C.n)
                    a = at(m)
                x = f.get(m, C.F.zero) - tot / a
                if x:
                    f[m] = x
                else:
                    f.pop(m, None)
            if zero(f):
                fs.append(f)
    else:
        for _ in range(k):
            fs.append(C.rdict(r.choice((1, 2, 2, 3) if high else (1, 2, 3, 4)), d, hom or r.random() < .5))
    if not fs:
        raise Skip("empty")
    desc(str(fs))
    try:
        want = ops.buchberger(fs)
        sizes(want, C.n, C)
    except TooBig:
        raise Skip("oracle")
    if any(m[0] < 0 for m in want):
        raise Skip("inconsistent")
    ops.budget, ops.growth = 10 ** 6, 10 ** 6
    t = Forest(Janet)
    run(alg, [C.build(f) for f in fs], t, r)
    els = inspect(t, C, want, ops, C.n, True)
    count("bases")
    count("elements", len(els))
    count("bases_of_%s" % ("1" if len(els) < 2 else "2-4" if len(els) < 5 else "5-9" if len(els) < 10 else "10+"))
    if variable:
        for w, m, f in els:
            s = C.F.zero
            for x, c in f.items():
                s += c * (at(x) if x[0] >= 0 else 1)
            ok(not s, "solution-lost", lambda: str(w.poly))
            count("solutions")
    g = list(want.items())
    for _ in range(2):
        if variable and C.n == 1 and r.random() < .5:
            # a derivative of high order: the coefficients are differentiated many times
            f = {(r.randrange(C.k), (r.randint(4, 8),)): C.F.one}
        else:
            f = C.rdict(3, 2 if variable else r.choice((d, d + 2) if high else (2, 2, 4, 7, 9)))
        ref = bounded(ops, f, g, 60, 9)
        if ref is None:
            continue
        p = C.build(f)
        q = p.NF(t)
        ok(zero(C.of(q)) == ref, "normal-form", lambda: "%s of %s" % (q, f))
    D = max(sum(m[1]) for m in want) * C.n + 3
    hp = t.HP()
    ok(hp.subs(D) == sum(R.standard(list(want), C.n, q, D) for q in range(C.k)), "hilbert", lambda: str(hp))
    seen("%s %s %s" % (C.o, alg, sorted(map(str, want.items()))))


def diffbasis(r, size):
    opbasis(r, size, PolyDiff, r.random() < .5)


def schembasis(r, size):
    opbasis(r, size, PolySchem, False)


# ---------------------------------------------------------------- what the constructions report

def ledger(alg, build, tree, r):
    """One construction: every object made for a pending element is recorded."""
    made = []
    init = Wrap.__init__

    def record(self, *a):
        init(self, *a)
        made.append(self)
    fs, t = build(), tree()
    Wrap.__init__ = record
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            t0 = time.time()
            res = getattr(G, alg)(fs, t, level=r.choice((0, 0, 1)))
            t1 = time.time()
    finally:
        Wrap.__init__ = init
    ok(len(res) == 3 and -1e-3 <= res[0] <= t1 - t0 + 1e-3, "time", lambda: "%s of %s" % (res[0], t1 - t0))
    els = list(t)
    zeros = sum(1 for w in made if not w.poly)
    ok(all(isinstance(x, int) and x >= 0 for x in res[1:]), "criteria", str(res))
    # every generator and every prolongation ends as an element, as a zero or at a criterion
    ok(len(made) == len(els) + zeros + res[1] + res[2], "criteria-do-not-add-up",
       lambda: "%s: %d made, %d elements, %d zeros, criteria %s" % (alg, len(made), len(els), zeros, res[1:]))
    ok(all(w.prolong[v] or not w.nonmult[v] for w in els for v in range(len(w.lm))), "prolongation-left-out")
    count("made", len(made))
    count("zeros", zeros)
    count("crit1", res[1])
    count("crit2", res[2])
    return res[1:], [(str(w.lm), str(w.ansector), str(w.poly), tuple(w.nonmult)) for w in els]


def account(r, size, kind):
    alg = r.choice(("ginvMin", "ginvMin", "ginvBlockLow"))
    orders = sorted(MORD) if alg == "ginvMin" else ["TOPdeglex"]
    desc(alg + " ")
    if kind in ("ideal", "module"):
        C = Ctx(r, par=False, n=r.choice((1, 2, 2, 3, 3, 4)), k=r.randint(1, 3) if kind == "module" else 0, orders=orders)
        fs = systems(C, size)
        ops = Ops(C.F, C.key, budget=4000, growth=30)
    else:
        cls = PolyDiff if kind == "diff" else PolySchem
        C = DCtx(r, cls, n=r.choice((1, 2, 2, 3)), orders=orders)
        ops = Ops(C.F, C.key, diff=cls is PolyDiff, budget=100, growth=7)
        fs = [C.rdict(r.choice((1, 2, 3)), r.choice((1, 2, 2)), True) for _ in range(r.choice((1, 2, 2, 3)))]
    desc(str(fs))
    try:
        want = ops.buchberger(fs)
        sizes(want, C.n, C)
    except TooBig:
        raise Skip("oracle")
    tree = (lambda: Forest(Janet)) if kind != "ideal" else r.choice((Janet, JanetCache))
    build = lambda: [C.build(f) for f in fs]
    crit, els = ledger(alg, build, tree, r)
    if kind != "ideal":
        ok(crit[0] == 0, "product-criterion-in-a-module")
    if kind in ("diff", "schem"):
        ok(crit[1] == 0, "criterion-for-operators")
    if len(fs) == 1 and len(els) == 1:
        ok(crit == (0, 0), "criteria-for-one-generator", str(crit))
    if kind in ("ideal", "module") or r.random() < .3:
        again, els2 = ledger(alg, build, tree, r)
        ok(again == crit and els2 == els, "not-deterministic", lambda: "%s %s and %s %s" % (crit, els, again, els2))
    count("constructions_" + kind)
    seen("%s %s %s %s" % (C.o, alg, crit, [e[0] for e in els]))


def acideal(r, size):
    account(r, size, "ideal")


def acmodule(r, size):
    account(r, size, "module")


def acops(r, size):
    account(r, size, r.choice(("diff", "schem")))


main({"picture": (picture, 1, 1000), "monomial": (monomial, 1, 1000), "poly": (poly, 1, 1000), "inplace": (inplace, 1, 1000), "janet": (janet, 3, 1000),
      "hilbert": (hilbert, 1, 1000), "ideals": (ideals, 3, 1000), "modules": (modules, 3, 1000), "params": (params, 1, 1000),
      "diffpoly": (diffpoly, 1, 1000), "schempoly": (schempoly, 1, 1000), "diffbasis": (diffbasis, 1, 1000),
      "schembasis": (schembasis, 1, 1000), "acideal": (acideal, 1, 1000), "acmodule": (acmodule, 1, 1000), "acops": (acops, 1, 1000)}, "/pyginv/")
