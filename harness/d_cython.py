"""Monitors of the Cython module: every object mirrored on an independent model."""
import gc, json, os, re, sys, time
sys.path.insert(0, os.environ["GINV_MOD"])
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import ginv
import refalg as R
from fractions import Fraction
from pyvh import main, ok, raises, seen, count, desc, Skip, Fail

sys.set_int_max_str_digits(0)
PE = (AssertionError, AttributeError, TypeError, ValueError, OverflowError, IndexError)
ORD = ("lex", "deglex", "alex")


def mkey(o):
    if o == "lex":
        return lambda e: e
    if o == "deglex":
        return lambda e: (sum(e), tuple(-x for x in reversed(e)))
    return lambda e: (-sum(e), e)


def key(pos, o):
    k = mkey(o)
    return (lambda m: (k(m[1]), m[0])) if pos == "TOP" else (lambda m: (m[0], k(m[1])))


def sgn(a, b):
    return (a > b) - (a < b)


def rexp(r, n, d=4):
    return tuple(0 if r.random() < .35 else r.randint(0, d) for _ in range(n))


def rint(r):
    k = r.randint(0, 9)
    if k < 4:
        return r.choice((-1, 1)) * r.randint(1, 9)
    if k < 6:
        return r.choice((-1, 1)) * r.getrandbits(r.randint(1, 40) + 1) or 1
    if k < 8:
        return r.choice((-1, 1)) * ((1 << r.choice((31, 32, 63, 64, 65, 127, 128, 200))) + r.randint(-1, 1))
    if r.random() < .1:
        return r.choice((-1, 1)) * (r.getrandbits(r.choice((700, 1500, 3000, 20000))) | 1)
    return r.choice((-1, 1)) * (r.getrandbits(300) | 1)


def mon(e, pos=-1):
    n = len(e)
    m = ginv.monom.zero(n, -1)
    for i, k in enumerate(e):
        if k:
            m = m * ginv.monom.variable(i, n, -1) ** k
    return m.setPos(pos)


def ofmon(m):
    return (m.pos(), tuple(m))


class Ctx:
    def __init__(self, r, n=None, orders=ORD, maxpos=None):
        self.r, self.n = r, n or r.choice((2, 2, 2, 3, 3, 3, 4, 4, 4, 6, 9))
        self.big = not n and r.random() < .15
        self.po, self.o = r.choice(("TOP", "POT")), r.choice(orders)
        self.key = key(self.po, self.o)
        self.K = r.choice((-1, -1, 0, 1, 2)) if maxpos is None else maxpos

    def term(self, e, pos=-1):
        return ginv.poly_int.to_monom(self.po, self.o, mon(e, pos))

    def build(self, f):
        """f as a polynomial made with the module's own arithmetic."""
        p = None
        for (pos, e), c in f.items():
            t = self.term(e, pos) * c if self.r.random() < .5 else c * self.term(e, pos)
            p = t if p is None else p + t
        if p is None:
            t = self.term((0,) * self.n)
            p = t - t
        return p

    def rpoly(self, terms=4, d=3, mod=None, co=None):
        r, f = self.r, {}
        mod = self.K >= 0 if mod is None else mod
        for _ in range(r.randint(1, terms)):
            e = rexp(r, self.n, d)
            if self.big and r.random() < .5:
                e = tuple(x * r.choice((1, 1, 30, 1000, 70000)) for x in e)
            f[(r.randint(0, self.K) if mod else -1, e)] = co() if co else rint(r)
        return f

    def check(self, p, f, where):
        ts = [(ofmon(m), int(str(c))) for m, c in p]
        want = sorted(f.items(), key=lambda t: self.key(t[0]), reverse=True)
        ok(ts == want, where, lambda: "%s expected %s (order %s %s)" % (ts, want, self.po, self.o))
        ok(len(p) == len(f), "length", where)
        ok(p.isZero() == (not f) and bool(p) == bool(f), "zero-test", where)
        ok(p.order() == (self.po, self.o), "order", where)
        ok(p.size() == self.n, "size", where)
        ok(p.norm() == sum((abs(c).bit_length() + 63) // 64 for c in f.values()), "norm", where)
        g = R.content(f)
        ok(p.isPp() == (g == 1 or not f), "isPp", where)
        if f:
            l, c = want[0]
            ok(ofmon(p.lm()) == l, "lm", where)
            x = p.lc()
            ok(int(str(x)) == c and int(repr(x), 16) == c, "lc", where)
            ok((x.isZero(), x.isOne(), x.isAbsOne(), x.sgn(), bool(x)) == (False, c == 1, abs(c) == 1, sgn(c, 0), True), "lc-tests", where)
            ok(x.norm() == (abs(c).bit_length() + 63) // 64, "lc-norm", where)
            ok(p.degree() == sum(l[1]), "degree", where)
            ok(str(p) == "%s*%s + ..." % (p.lm(), p.lc()), "text", where)
            ok(repr(p) == "%r*%r + ..." % (p.lm(), p.lc()), "repr", where)
        else:
            ok(str(p) == "0" and repr(p) == "0", "text", where)
        count("polynomials_inspected")


def poly(r, size):
    c = Ctx(r)
    ops = []
    for _ in range(3):
        f = c.rpoly(2 + size // 2, co=None if r.random() < .5 else lambda: r.choice((-2, -1, 1, 2, 3)))
        ops.append((c.build(f), f))
    plain = [(c.build(f), f) for f in [c.rpoly(2, mod=False)]]
    for p, f in ops + plain:
        c.check(p, f, "built")
    tr = ""
    for _ in range(3 + size):
        i, j = r.randrange(len(ops)), r.randrange(len(ops))
        (p, f), (q, g) = ops[i], ops[j]
        o = r.randint(0, 11)
        tr += chr(97 + o)
        desc(chr(97 + o) + str(i) + str(j) + " ")
        k = rint(r)
        if o <= 1:
            if p is q:
                q = c.build(g)
            x, e = p + q, R.add(f, g)
        elif o <= 3:
            if p is q:
                q = c.build(g)
            x, e = p - q, R.add(f, g, -1)
        elif o == 4:
            q, g = plain[0]
            if len(f) * len(g) > 120:
                continue
            x, e = (p * q if r.random() < .5 else q * p), R.mul(f, g)
        elif o == 5:
            x, e = -p, R.scale(f, -1)
        elif o == 6 and c.K < 0 and len(f) < 6:
            d = r.randint(0, 3)
            if len(f) < 3 and r.random() < .3 and all(abs(v).bit_length() < 300 for v in f.values()):
                d = r.randint(4, 14)
            x, e = p ** d, R.power(f, d, c.n)
        elif o == 7 and f:
            k = k if r.random() < .9 else 0
            x, e = (p * k if r.random() < .5 else k * p), R.scale(f, k)
        elif o == 8 and f and c.K < 0:
            u = {(-1, (0,) * c.n): k}
            x, e = (p + k if r.random() < .5 else k + p), R.add(f, u)
            if r.random() < .2:  # the constant cancels
                k = e.get((-1, (0,) * c.n), 0)
                if k:
                    x, e = x - k, R.add(e, {(-1, (0,) * c.n): -k})
            count("integer_operands")
        elif o == 9 and f and c.K < 0:
            u = {(-1, (0,) * c.n): k}
            if r.random() < .5:
                x, e = p - k, R.add(f, u, -1)
            else:
                x, e = k - p, R.add(u, f, -1)
            count("integer_operands")
        elif o == 10 and f and R.content(f) != 1:
            y = c.build(f)
            x = y.pp()
            ok(x is y, "pp-result")
            e = {m: v // R.content(f) for m, v in f.items()}
            if [int(str(a)) for _, a in x][:1] == [-e[R.lm(e, c.key)]]:
                e = R.scale(e, -1)
        elif o == 11 and f and g and c.o != "alex":
            l = R.lm(g, c.key)
            s = rexp(r, c.n, 2)
            t = R.mul(g, {(-1, s): rint(r)})
            t = R.add(t, {m: v for m, v in f.items() if c.key(m) < c.key(R.lm(t, c.key))})
            y = c.build(t)
            q = c.build(g)
            raises_ok = y.reduction(q)
            ok(raises_ok is y, "reduction-result")
            m = R.lm(t, c.key)
            a, b = g[l], t[m]
            d = R.gcd(a, b)
            e = R.add(R.scale(t, a // d), R.shift(g, s, b // d), -1)
            got = {ofmon(m): int(str(v)) for m, v in y}
            if got != e:
                e = R.scale(e, -1)
            x = y
            c.check(q, g, "divisor")
            count("reductions")
        else:
            continue
        if any(v.bit_length() > 30000 for v in e.values()) or len(e) > 200 or any(sum(m[1]) > 10 ** 8 for m in e):
            continue
        c.check(x, e, "op " + chr(97 + o))
        for y, h in ops + plain:
            c.check(y, h, "operand after " + chr(97 + o))
        ok(x.comparable(p) and p.comparable(x), "comparable")
        ops[r.randrange(len(ops))] = (x, e)
        seen(tr[-1] + R.show(e, c.key)[:200])


def monomial(r, size):
    n = r.randint(2, 2 + size) if r.random() < .8 else r.randint(9, 40)
    ms = []
    for _ in range(4):
        e, pos = rexp(r, n, 6), r.choice((-1, -1, 0, 1, 5, r.randint(6, 300)))
        ms.append((mon(e, pos), (pos, e)))

    def check(m, t, where):
        ok(ofmon(m) == t, where, lambda: "%r expected %s" % (m, t))
        ok([m[i] for i in range(len(m))] == list(t[1]) and len(m) == n, "index", where)
        ok(m.degree() == sum(t[1]) and bool(m) == (sum(t[1]) > 0), "degree", where)
        s = " ".join(map(str, t[1]))
        ok(str(m) == ("[%s]" % s if t[0] < 0 else "[%d:%s]" % (t[0], s)), "text", where)
        ok(repr(m) == "[%d %d:%s]" % (t[0], sum(t[1]), s), "repr", where)
        count("monomials_inspected")
    for m, t in ms:
        check(m, t, "built")
    for _ in range(5 + size):
        i, j = r.randrange(4), r.randrange(4)
        (a, s), (b, t) = ms[i], ms[j]
        o = r.randint(0, 6)
        desc("%d%d%d " % (o, i, j))
        if o == 0:
            if s[0] >= 0 and t[0] >= 0:
                raises(PE, "product-of-two-module-elements", lambda: a * b)
                continue
            x, e = a * b, (max(s[0], t[0]), tuple(u + v for u, v in zip(s[1], t[1])))
        elif o == 1:
            k = r.randint(0, 5) if r.random() < .8 else r.randint(6, 100)
            if s[0] >= 0:
                raises(PE, "power-of-a-module-element", lambda: a ** k)
                continue
            x, e = a ** k, (-1, tuple(u * k for u in s[1]))
        elif o == 2:
            dv = (s[0] == t[0] or (t[0] < 0)) and all(u >= v for u, v in zip(s[1], t[1]))
            d = a.divisiable(b)
            if s[0] == t[0]:
                ok(d == dv, "divisible", lambda: "%r %r" % (a, b))
            if not d:
                if type(b) is ginv.monom:
                    raises(PE, "inexact-quotient", lambda: a / b)
                continue
            x, e = a / b, (-1 if s[0] == t[0] else s[0], tuple(u - v for u, v in zip(s[1], t[1])))
        elif o == 3:
            ok(sgn(a.lex(b), 0) == sgn(s[1], t[1]), "lex", lambda: "%r %r" % (a, b))
            ok(sgn(a.deglex(b), 0) == sgn(mkey("deglex")(s[1]), mkey("deglex")(t[1])), "deglex", lambda: "%r %r" % (a, b))
            ok(sgn(a.alex(b), 0) == sgn(mkey("alex")(s[1]), mkey("alex")(t[1])), "alex", lambda: "%r %r" % (a, b))
            continue
        elif o == 4:
            p = ginv.randpermutation(n)
            for _ in range(r.randint(0, 3)):
                p.next()
            v = [p[k] for k in range(len(p))]
            ok(sorted(v) == list(range(n)) and len(p) == n, "permutation")
            x = a.permutation(p)
            f, g = [0] * n, [0] * n
            for k in range(n):
                f[v[k]] = s[1][k]
                g[k] = s[1][v[k]]
            ok(tuple(x) in (tuple(f), tuple(g)) and x.pos() == s[0] and x.degree() == sum(s[1]), "permuted", lambda: "%r by %s gave %r" % (a, v, x))
            raises(PE, "permutation-index", lambda: p[n])
            raises(PE, "permutation-index", lambda: p[-1])
            continue
        elif o == 5:
            k = r.randint(-1, 4) if r.random() < .7 else r.randint(5, 1000)
            x, e = mon(s[1], s[0]), (k, s[1])
            ok(x.setPos(k) is x, "setPos-result")
        else:
            ginv.monom.rand_init(n, 1, 2 + size)
            STATIC.add("random")
            x = ginv.monom.next()
            ok(1 <= x.degree() <= 2 + size and x.pos() == -1 and len(x) == n and sum(x) == x.degree(), "random-monomial", repr(x))
            e = ofmon(x)
        check(x, e, "op %d" % o)
        check(a, s, "left operand")
        check(b, t, "right operand")
        ms[r.randrange(4)] = (x, e)
        seen("%d%s%s" % (o, s, t))


def hpval(h, s):
    return sum(Fraction(c) * s ** i for i, c in enumerate(h))


def system(r, size, maxpos=None):
    wide = r.random() < .12  # many variables or components, few terms
    c = Ctx(r, n=r.choice((2, 2, 3, 3, 3, 4)) if not wide else r.randint(3, 9), orders=("lex", "deglex"),
            maxpos=(r.choice((-1, -1, -1, 0, 1)) if not wide else r.choice((-1, r.randint(2, 9)))) if maxpos is None else maxpos)
    fs = [c.rpoly(2, 1, co=lambda: r.choice((-1, 1))) for _ in range(r.randint(2, 4))] if wide else [c.rpoly(3, 2, co=lambda: r.choice((-3, -2, -1, 1, 2, 3))) for _ in range(r.randint(1, 3))]
    if r.random() < .05 and c.K < 0:
        fs.append({(-1, (0,) * c.n): 5})
    if r.random() < .1:
        fs.append({})
    try:
        g = R.buchberger(fs, c.key, 3000)
        if any(sum(m[1]) > 8 or abs(v) > 10 ** 30 for p in g.values() for m, v in p.items()):
            raise Skip("large")
        if R.janet_completion_size(list(g), c.n, 30) > 30:
            raise Skip("large")
    except R.TooBig:
        raise Skip("oracle-budget")
    return c, fs, g


def basis(r, size):
    c, fs, g = system(r, size)
    desc("%s %s %d: %s" % (c.po, c.o, c.n, [R.show(f) for f in fs]))
    b = ginv.janet_poly_int()
    ok(len(b) == 0 and not b and not b.isOne() and list(b) == [], "fresh-basis")
    ps = [c.build(f) for f in fs]
    oth = Ctx(r, c.n, maxpos=-1)
    for p in ps:
        ok(b.comparable(p), "comparable")
        ok(b.push(p) is b, "push-result")
    t0 = time.monotonic()
    b.build()
    t1 = time.monotonic()
    for p, f in zip(ps, fs):
        c.check(p, f, "generator after build")
    one = any(not any(m[1]) and m[0] < 0 for m in g)
    ok(b.isOne() == one, "whole-ring", str(g))
    tm = b.timer()
    ok(-.02 <= tm.realTime() <= t1 - t0 + .05 and tm.userTime() >= 0 and tm.sysTime() >= 0 and tm.userTime() <= t1 - t0 + .05, "timer", "%s measured %.3f" % (tm, t1 - t0))
    ok(str(tm) == "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (tm.userTime(), tm.sysTime(), tm.realTime()), "timer-text")
    for x in (b.reduction(), b.critI(), b.critII(), b.isZeroNf(), b.maxEqualLm()):
        ok(isinstance(x, int) and x >= 0, "counter")
    if one:
        ok(len(b) == 1 and bool(b), "unit-size")
        raises(PE, "hp-of-unit", b.HilbertPoly)
        raises(PE, "janet-of-unit", lambda: b.janet(-1))
        count("unit_ideals")
        return
    ok(len(b) == len(list(b)) and bool(b) == (len(b) > 0), "basis-length")
    if not g:
        ok(len(b) == 0, "basis-of-zero")
        return
    mp = max((m[0] for f in fs for m in f), default=-1)
    ok(b.maxPos() == mp, "maxPos")
    raises(PE, "janet-position", lambda: b.janet(mp + 1))
    raises(PE, "janet-position", lambda: b.janet(-2))
    els = {}
    prev = None
    for w in b:
        p = w.poly()
        f = {ofmon(m): int(str(v)) for m, v in p}
        c.check(p, f, "basis element")
        l = ofmon(w.lm())
        ok(l == R.lm(f, c.key) and l == ofmon(p.lm()), "element-lm")
        ok(l not in els, "repeated-lm")
        ok(prev is None or c.key(prev) < c.key(l), "not-ascending")
        prev = l
        els[l] = (w, f)
        an = ofmon(w.ansector())
        ok(R.divides(an, l), "ancestor", "%s %s" % (an, l))
        ok(R.content(f) == 1, "not-primitive")
        raises(PE, "NM-index", lambda: w.NM(c.n))
        raises(PE, "NM-index", lambda: w.NM(-1))
        raises(PE, "build-index", lambda: w.build(c.n))
        ok(str(w) == "%s%s[%s]" % (w.lm(), w.ansector(), "".join("*" if w.NM(v) else " " for v in range(c.n))), "element-text")
    for l in g:
        ok(l in els, "missing-leading-monomial", lambda: "%s not among %s" % (l, list(els)))
    for l, (w, f) in els.items():
        ok(not R.nf(f, [(k, p) for k, p in g.items()], c.key), "outside-the-ideal", lambda: R.show(f, c.key))
        U = [m for m in els if m[0] == l[0]]
        for v in range(c.n):
            nm = any(m[1][:v] == l[1][:v] and m[1][v] > l[1][v] for m in U)
            ok(bool(w.NM(v)) == nm, "non-multiplicative", lambda: "%s %d of %s" % (l, v, U))
        z = b.find(mon(l[1], l[0]))
        ok(z is not None and ofmon(z.lm()) == l, "find-element")
    lms = list(els)
    seen("%s%s%s" % (c.po, c.o, sorted(lms)) + R.show(next(iter(els.values()))[1])[:100])
    for pos in range(-1, mp + 1):
        ok(b.janet(pos).size() == sum(1 for m in lms if m[0] == pos), "janet-size")
    # lookups, Hilbert polynomial, normal forms
    gl = list(g.items())
    for _ in range(4):
        l = r.choice(lms)
        m = (r.choice((l[0], l[0], r.randint(-1, mp + 1))), tuple(x + r.choice((0, 0, 1, -1, 2)) if x or r.random() < .7 else 0 for x in l[1]))
        if min(m[1]) < 0:
            continue
        z = b.find(mon(m[1], m[0]))
        want = [k for k in lms if R.divides(k, m) and not any(m[1][v] > k[1][v] and els[k][0].NM(v) for v in range(c.n))]
        ok((ofmon(z.lm()) if z is not None else None) == (want[0] if want else None), "find", lambda: "%s in %s" % (m, lms))
        count("lookups")
    D = max(sum(m[1]) for m in lms)
    if D <= 8:
        h = b.HilbertPoly()
        ok(len(h) == c.n + 1, "hp-length", h)
        for s in (D, D + 1, D + 2):
            e = sum(R.standard(lms, c.n, pos, s) for pos in (range(0, mp + 1) if mp >= 0 else (-1,)))
            ok(hpval(h, s) == e, "hp-value", lambda: "%s at %d, counted %d, leading monomials %s" % (h, s, e, lms))
        if mp < 0:
            ok(True, "")
            hj = b.janet(-1).HilbertPoly()
            for s in (D, D + 1):
                e = R.standard(lms, c.n, -1, s) - (R.standard(lms, c.n, -1, s - 1))
                ok(hpval(hj, s) in (e, hpval(h, s)), "tree-hp", lambda: "%s at %d" % (hj, s))
        count("hilbert_polynomials")
    for _ in range(3):
        f = c.rpoly(3, 3)
        if r.random() < .4:
            f = R.mul(r.choice(fs), c.rpoly(2, 1, mod=False))
        p = c.build(f)
        q = b.nf(p)
        c.check(p, f, "argument of nf")
        e = R.nf(f, gl, c.key)
        got = {ofmon(m): int(str(v)) for m, v in q}
        ok(got == e or got == R.scale(e, -1), "normal-form", lambda: "%s gave %s expected %s" % (R.show(f, c.key), R.show(got, c.key), R.show(e, c.key)))
        count("normal_forms")
    # every generator and every prolongation ends as an element, as a zero or at a criterion
    done = sum(bool(w.build(v)) for w in b for v in range(c.n))
    ok(all(w.build(v) or not w.NM(v) for w in b for v in range(c.n)), "prolongation-left-out")
    cnt = (b.reduction(), b.critI(), b.critII(), b.isZeroNf(), b.maxEqualLm())
    ok(sum(1 for f in fs if f) + done == cnt[1] + cnt[2] + cnt[3] + len(b), "counters-do-not-add-up", lambda: "%s with %d generators %d prolongations %d elements" % (cnt, len(fs), done, len(b)))
    ok(mp < 0 or cnt[1] == 0, "product-criterion-in-a-module")
    count("counted_prolongations", done)
    w = r.choice(list(els.values()))
    ok(b.nf(w[0].poly()).isZero(), "element-not-reduced")
    c.check(w[0].poly(), w[1], "basis element after nf")
    ok(sorted(ofmon(w.lm()) for w in b) == sorted(lms), "basis-changed")


JUNK = []


def churn(r):
    """Reuse whatever memory is free."""
    del JUNK[:]
    if r.random() < .1:
        # a long polynomial
        x, y = (ginv.poly_int.to_monom("POT", "deglex", ginv.monom.variable(v, 2, -1)) for v in (0, 1))
        JUNK.append(((x + y + 1) ** r.randint(8, 14)))
    for _ in range(r.randint(3, 12)):
        n = r.randint(2, 5)
        m = mon(tuple(r.randint(3, 9) for _ in range(n)))
        p = ginv.poly_int.to_monom("TOP", "lex", m) * rint(r)
        JUNK.append((m, p, p * p))
    if r.random() < .3:
        gc.collect()


def drawing(r, size):
    """Pictures of the Janet trees of a basis."""
    c, fs, g = system(r, size)
    desc("%s %s %d: %s" % (c.po, c.o, c.n, [R.show(f) for f in fs]))
    b = ginv.janet_poly_int()
    for f in fs:
        b.push(c.build(f))
    b.build()
    if b.isOne() or not g:
        raise Skip("no tree")
    els = [(ofmon(w.lm()), ofmon(w.lm()) == ofmon(w.ansector()), [bool(w.NM(v)) for v in range(c.n)], [bool(w.build(v)) for v in range(c.n)], ofmon(w.ansector())) for w in b]
    before = [(ofmon(w.lm()), str(w), str(w.poly())) for w in b]
    for pos in range(-1, b.maxPos() + 1):
        j = b.janet(pos)
        fd = os.memfd_create("pic")
        try:
            ok(j.draw("json", "/proc/self/fd/%d" % fd) is None, "draw-result")
            pic = json.loads(os.pread(fd, 1 << 26, 0).decode())
        finally:
            os.close(fd)
        mine = [e for e in els if e[0][0] == pos]
        want = []
        for m, _, nm, bd, an in mine:
            bold = sum(m[1]) == sum(an[1])
            want.append([["B%d" % x if bold else str(x) for x in m[1]], ["*" if x else "" for x in nm], ["&" if x else "" for x in bd]])
        label = [x["name"] if x["label"] == "\\N" else x["label"] for x in pic["objects"]]
        got = []
        for t in label:
            if t.startswith("<table"):
                got.append([[re.sub("<b>", "B", re.sub("</b>", "", x, flags=re.I), flags=re.I).replace("&amp;", "&").strip()
                             for x in re.findall("<td>(.*?)</td>", row, re.S | re.I)] for row in re.findall("<tr>(.*?)</tr>", t, re.S | re.I)])
        ok(sorted(got) == sorted(want), "drawn-elements", lambda: "%s expected %s" % (sorted(got), sorted(want)))
        # a tree and its header: one edge into every node but the root
        edges = pic.get("edges", [])
        head = [i for i, t in enumerate(label) if t.startswith("#")]
        ok(len(head) == 1 and label[head[0]].startswith("#Janet = %d\n" % len(mine)), "drawn-header", str(label)[:500])
        heads = [e["head"] for e in edges]
        ok(len(edges) == max(0, len(label) - 2) and len(set(heads)) == len(heads) and head[0] not in heads + [e["tail"] for e in edges], "drawn-edges", str(pic)[:1000])
        ok(all(e["style"] in ("solid", "dotted") for e in edges), "drawn-edges", "")
        count("drawn_elements", len(mine))
        seen(sorted(want))
    ok([(ofmon(w.lm()), str(w), str(w.poly())) for w in b] == before, "drawing-changed-the-basis")


ELEMENT_VIEWS = ["element lm", "ancestor", "element polynomial", "monomial of an element polynomial", "found", "terms of an element"]


def views(r, size):
    """Whatever is returned stays what it was, however long its origin is kept."""
    c = Ctx(r)
    live, opened = [], []
    last = r.choice([None, None, None, "elements", "tree", "tree", "tree hp", "open basis iterator", "basis timer"] + ELEMENT_VIEWS)

    def add(what, obj, read):
        # sometimes views of one kind only, so that nothing else keeps their origin alive
        if last is None or what == last:
            live.append((what, obj, read, read(obj)))
    if last is None and r.random() < .6:
        for _ in range(1 + size // 2):
            f = c.rpoly(3)
            p = c.build(f)
            k = r.randint(0, 5)
            desc("p%d " % k)
            if k == 0:
                add("lm", p.lm(), ofmon)
            elif k == 1:
                add("lc", p.lc(), str)
            elif k == 2:
                for m, a in list(p):
                    add("term monomial", m, ofmon)
                    add("term coefficient", a, str)
            elif k == 3:
                it = iter(p)
                first = next(it)
                add("open iterator", (first, it), lambda t: ofmon(t[0][0]))
                opened.append((it, [(ofmon(m), str(a)) for m, a in list(p)[1:]], lambda t: (ofmon(t[0]), str(t[1]))))
            elif k == 4:
                add("lm of a temporary", (p + p * 1).lm(), ofmon)
                add("lc of a temporary", (-p).lc(), repr)
            else:
                add("iterator of a temporary", list(iter(p * 3)), lambda t: [(ofmon(m), str(a)) for m, a in t])
            del p
    if last is not None or r.random() < .6:
        c, fs, g = system(r, size)
        b = ginv.janet_poly_int()
        for f in fs:
            b.push(c.build(f))
        b.build()
        rd = lambda p: [(ofmon(m), str(a)) for m, a in p]
        if not b.isOne() and len(b):
            add("elements", list(b), lambda ws: [(ofmon(w.lm()), str(w), rd(w.poly())) for w in ws])
            for w in b:
                k = r.randint(0, 5) if last is None else ELEMENT_VIEWS.index(last) if last in ELEMENT_VIEWS else -1
                desc("w%d " % k)
                if k == 0:
                    add("element lm", w.lm(), ofmon)
                elif k == 1:
                    add("ancestor", w.ansector(), ofmon)
                elif k == 2:
                    add("element polynomial", w.poly(), rd)
                elif k == 3:
                    add("monomial of an element polynomial", w.poly().lm(), ofmon)
                elif k == 4:
                    add("found", b.find(w.lm()), lambda z: ofmon(z.lm()))
                elif k == 5:
                    add("terms of an element", list(w.poly()), lambda t: [(ofmon(m), str(a)) for m, a in t])
            pos = b.maxPos()
            add("tree", b.janet(pos), lambda j: j.size())
            add("tree hp", b.janet(pos), lambda j: tuple(j.HilbertPoly()) if j.size() else ())
            if last == "open basis iterator" or last is None and r.random() < .3:
                it = iter(b)
                next(it)
                opened.append((it, [(ofmon(w.lm()), str(w)) for w in b][1:], lambda w: (ofmon(w.lm()), str(w))))
        add("basis timer", b.timer(), str)
        count("bases")
        del b, c, fs, g
        w = None
    it = None
    r.shuffle(live)
    while live:
        churn(r)
        for what, obj, read, want in live:
            got = read(obj)
            ok(got == want, "changed-after-origin-was-dropped", lambda: "%s: %s was %s" % (what, got, want))
            count("views_read_again")
        seen(";".join(sorted(w for w, _, _, _ in live)) + str(want)[:60])
        del live[:max(1, len(live) // 2)]
    while opened:
        churn(r)
        it, want, read = opened.pop()
        got = [read(t) for t in it]
        ok(got == want, "iteration-after-origin-was-dropped", lambda: "%s expected %s" % (got, want))
        count("iterations_finished")


STATIC = {"zero", "variable", "rand_init", "next", "to_monom"}


def errors(r, size):
    """Improper calls raise a Python exception and change nothing."""
    c = Ctx(r, maxpos=-1)
    f, g = c.rpoly(3), c.rpoly(2)
    p, q = c.build(f), c.build(g)
    n = c.n
    zero = p - c.build(f)
    other = ginv.poly_int.to_monom("POT" if c.po == "TOP" else "TOP", c.o, mon((1,) * n))
    wide = ginv.poly_int.to_monom(c.po, c.o, mon((1,) * (n + 1)))
    m, mw = mon((1,) * n), mon((1,) * (n + 1))
    b = ginv.janet_poly_int()
    b.push(p)
    low = ginv.poly_int.to_monom(c.po, c.o, mon((0,) * n))
    done = ginv.janet_poly_int()
    dt = lambda e: ginv.poly_int.to_monom(c.po, "deglex" if c.o == "alex" else c.o, mon(e))
    done.push(dt((2,) * n) + dt((1,) * n))
    done.push(dt((1,) + (0,) * (n - 1)) - dt((0,) * n))
    done.build()
    bad = [lambda: p + other, lambda: p - other, lambda: p * other, lambda: p + wide, lambda: wide * p, lambda: p + 1.5, lambda: 1.5 * p,
           lambda: p * "2", lambda: None + p, lambda: p - None, lambda: p ** -1, lambda: zero.lm(), lambda: zero.lc(), lambda: zero.degree(),
           lambda: c.build(f).reduction(zero), lambda: zero.reduction(p), lambda: low.reduction(c.term((1,) * n)) if c.o != "alex" else p + None,
           lambda: c.term((3,) + (0,) * (n - 1)).reduction(c.term((0,) * (n - 1) + (1,))), lambda: c.term((2,) * (n - 1) + (0,)).reduction(c.term((1,) * n)),
           lambda: m * mw, lambda: m.divisiable(mw), lambda: m.lex(mw), lambda: m.deglex(mw), lambda: m.alex(mw), lambda: m[n], lambda: m[-1], lambda: m[10 ** 9],
           lambda: m / mon((2,) * n), lambda: m ** -1, lambda: m * 3, lambda: 3 * m, lambda: m * p, lambda: m / 2,
           lambda: m.setPos(-2), lambda: mon((1,) * n, 1) * mon((1,) * n, 1), lambda: mon((1,) * n, 2) ** 2, lambda: m.permutation(ginv.randpermutation(n + 1)),
           lambda: ginv.monom.variable(0, 0, -1), lambda: ginv.monom.zero(3, -2), lambda: ginv.monom.zero(-3, -1), lambda: ginv.monom.variable(0, 3, -2), lambda: ginv.monom.variable(1, 2, -10 ** 6),
           lambda: ginv.monom.rand_init(3, 0, 4), lambda: ginv.poly_int.to_monom("X", "lex", m), lambda: ginv.poly_int.to_monom("TOP", "grlex", m),
           lambda: ginv.poly_int.to_monom("TOP", "lex", None), lambda: b.push(other), lambda: b.push(wide), lambda: b.janet(0),
           lambda: ginv.janet_poly_int().HilbertPoly(), lambda: ginv.janet_poly_int().janet(-1), lambda: ginv.randpermutation(4)[4], lambda: ginv.randpermutation(4)[-1],
           lambda: done.find(mw), lambda: done.find(mon((1,) * (n - 1))), lambda: done.find(None), lambda: done.find(p), lambda: done.janet(None), lambda: done.janet(10 ** 12), lambda: done.janet(-2), lambda: done.janet(-3), lambda: done.janet(done.maxPos() + 1), lambda: done.janet(-10 ** 6), lambda: done.nf(wide), lambda: done.push(wide),
           lambda: list(done)[0].NM("x"), lambda: done.nf(None), lambda: done.push(None), lambda: done.comparable(None), lambda: p.comparable(None), lambda: m.lex(None), lambda: m.permutation(None), lambda: c.build(f).reduction(None),
           lambda: ginv.monom.variable(n, n, -1), lambda: ginv.monom.variable(-1, n, -1), lambda: ginv.monom.variable(10 ** 6, n, -1), lambda: ginv.randpermutation(0), lambda: ginv.randpermutation(-1),
           lambda: ginv.randpermutation(None), lambda: m.setPos(None), lambda: m / None, lambda: None / m, lambda: m * None, lambda: None * m, lambda: m.divisiable(None), lambda: m.deglex(None), lambda: m.alex(None),
           lambda: ginv.poly_int.to_monom(None, None, m), lambda: None - p, lambda: p * None, lambda: None * p, lambda: p ** None, lambda: p.reduction(None), lambda: done.janet("0"), lambda: m["0"], lambda: m[None],
           lambda: b.nf(wide), lambda: b.nf(other), lambda: b.push(3), lambda: m.lex(3), lambda: p.comparable(3)]
    if "random" not in STATIC:
        raises(PE, "random-monomial-of-nothing", ginv.monom.next)
    # the classes of views can be instantiated, but there is nothing to be seen
    for t in (ginv.const_monom, ginv.monom, ginv.const_poly_int, ginv.poly_int, ginv.const_integer, ginv.wrap_poly_int, ginv.const_janet, ginv.const_timer):
        for name in dir(t):
            if name not in STATIC and not name.startswith("_"):
                args = {"divisiable": (m,), "lex": (m,), "deglex": (m,), "alex": (m,), "comparable": (p,), "add": (1,), "sub": (p,), "mul": (p,), "reduction": (p,), "permutation": (ginv.randpermutation(n),),
                        "setPos": (0,), "NM": (0,), "build": (0,), "draw": ("dot", "/dev/null")}.get(name, ())
                bad.append(lambda t=t, name=name, args=args: getattr(t(), name)(*args))
        bad += [lambda t=t, f=f: f(t()) for f in ((str,) if t is ginv.wrap_poly_int or t is ginv.const_timer else () if t is ginv.const_janet else (str, repr, bool))]
    nm, np = ginv.const_monom, ginv.const_poly_int
    bad += [lambda: m * nm(), lambda: nm() * m, lambda: nm() / m, lambda: m / ginv.monom(), lambda: nm() ** 2, lambda: m.lex(nm()), lambda: m.deglex(nm()), lambda: m.alex(nm()), lambda: nm().deglex(m), lambda: nm().alex(m), lambda: m.divisiable(nm()), lambda: len(nm()), lambda: nm()[0], lambda: list(nm()),
            lambda: done.find(nm()), lambda: ginv.janet_poly_int().find(nm()), lambda: done.nf(np()), lambda: done.push(np()), lambda: done.comparable(np()), lambda: ginv.janet_poly_int().push(np()), lambda: p.comparable(np()),
            lambda: p + np(), lambda: np() + p, lambda: p - np(), lambda: np() - 1, lambda: np() * 2, lambda: np() * p, lambda: np() ** 2, lambda: -np(), lambda: c.build(f).reduction(np()), lambda: len(np()), lambda: list(np()),
            lambda: ginv.poly_int.to_monom("TOP", "lex", nm())]
    for k in r.sample(range(len(bad)), min(len(bad), 6 + 2 * size)):
        desc("%d " % k)
        raises(PE, "accepted-improper-call", bad[k])
        count("improper_calls")
        seen("improper %d" % k)
    c.check(p, f, "after improper calls")
    c.check(q, g, "after improper calls")
    ok(ofmon(m) == (-1, (1,) * n), "monomial after improper calls")
    ok(not p.comparable(other) and not p.comparable(wide) and p.comparable(q), "comparable")


def misc(r, size):
    a = ginv.allocator
    x0 = a.currMemory()
    keep = [mon(rexp(r, 4, 5)) for _ in range(20)]
    ok(a.maxMemory() >= a.currMemory() >= 0, "memory-figures")
    one = a()
    ok(one.alloc() == 0 and one.size() == 0 and str(one) == "alloc: 0, size: 0", "fresh-allocator")
    x1 = a.currMemory()
    ok(x1 > x0, "memory-not-counted", "%d %d" % (x0, x1))
    del keep
    gc.collect()
    ok(a.currMemory() == x0, "memory-not-returned", "%d %d" % (x0, a.currMemory()))
    g = a.GC_timer()
    ok(g.realTime() >= 0 and g.userTime() >= 0 and str(g) == "GC userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (g.userTime(), g.sysTime(), g.realTime()), "gc-timer")
    t = ginv.timer()
    b0 = time.monotonic()
    t.start()
    b1 = time.monotonic()
    time.sleep(r.choice((0, .01, .03)))
    e0 = time.monotonic()
    t.stop()
    e1 = time.monotonic()
    ok(e0 - b1 - .03 <= t.realTime() <= e1 - b0 + .03, "timer", "%s" % t)
    v = t.realTime()
    time.sleep(.012)
    ok(t.realTime() == v, "timer-runs-while-stopped")
    t.cont()
    time.sleep(.02)
    t.stop()
    ok(t.realTime() >= v, "timer-lost-time")
    seen("%d %.2f" % (x1 - x0, t.realTime()))


def drained(f):
    """Whatever a case made is given back when its objects are gone."""
    def g(r, size):
        x = ginv.allocator.currMemory()
        f(r, size)
        del JUNK[:]
        y = ginv.allocator.currMemory()
        if x != y:
            gc.collect()
            y = ginv.allocator.currMemory()
        ok(x == y, "memory-not-returned", "%d bytes reserved before the case, %d after" % (x, y))
    return g


if __name__ == "__main__":
    main({"poly": (drained(poly), 5, 12), "monomial": (drained(monomial), 3, 6), "basis": (drained(basis), 4, 6), "views": (drained(views), 3, 8),
          "errors": (drained(errors), 2, 12), "misc": (misc, 1, 3), "drawing": (drained(drawing), 2, 6)}, "ginv.pyx")
