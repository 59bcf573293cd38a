"""Independent exact polynomials for the Python monitors.

A polynomial is a dict {(pos, exponents): int or Fraction}; pos -1 for plain polynomials.
Orders are key functions: the larger key is the larger monomial.
"""
import math
from fractions import Fraction
from math import gcd
from itertools import combinations


class TooBig(Exception):
    pass


def add(a, b, c=1):
    r = dict(a)
    for m, x in b.items():
        y = r.get(m, 0) + c * x
        if y:
            r[m] = y
        else:
            r.pop(m, None)
    return r


def scale(a, c):
    return {m: x * c for m, x in a.items()} if c else {}


def mpos(p, q):
    return p if q < 0 else q


def mul(a, b):
    r = {}
    for (p, e), x in a.items():
        for (q, f), y in b.items():
            m = (mpos(p, q), tuple(i + j for i, j in zip(e, f)))
            z = r.get(m, 0) + x * y
            if z:
                r[m] = z
            else:
                r.pop(m, None)
    return r


def shift(a, e, c=1):
    return {(p, tuple(i + j for i, j in zip(f, e))): x * c for (p, f), x in a.items()}


def power(a, k, n):
    r = {(-1, (0,) * n): 1}
    for _ in range(k):
        r = mul(r, a)
    return r


def lm(a, key):
    return max(a, key=key)


def divides(m, n):
    return m[0] == n[0] and all(i <= j for i, j in zip(m[1], n[1]))


def quo(n, m):
    return tuple(j - i for i, j in zip(m[1], n[1]))


def content(a):
    g = 0
    for x in a.values():
        g = gcd(g, int(x))
    return g


def primitive(a, key):
    """The multiple with coprime integer coefficients and positive leading coefficient."""
    if not a:
        return a
    l = 1
    for x in a.values():
        d = Fraction(x).denominator
        l = l * d // gcd(l, d)
    b = {m: int(x * l) for m, x in a.items()}
    g = content(b)
    if b[lm(b, key)] < 0:
        g = -g
    return {m: x // g for m, x in b.items()}


def proportional(a, b, key):
    return primitive(a, key) == primitive(b, key)


def nf(p, g, key, budget=None):
    """Normal form over the rationals, primitive; with respect to [(lm, poly)]."""
    p = primitive(p, key)
    r = {}
    while p:
        m = lm(p, key)
        for l, h in g:
            if divides(l, m):
                c, d = h[l], p[m]
                k = gcd(c, d)
                c //= k
                d //= k
                s = quo(m, l)
                p = {t: x * c for t, x in p.items()}
                for (q, e), x in h.items():
                    t = (q, tuple(i + j for i, j in zip(e, s)))
                    y = p.get(t, 0) - x * d
                    if y:
                        p[t] = y
                    else:
                        p.pop(t, None)
                r = {t: x * c for t, x in r.items()}
                k = 0
                for x in p.values():
                    k = gcd(k, x)
                    if k == 1:
                        break
                else:
                    for x in r.values():
                        k = gcd(k, x)
                if k > 1:
                    p = {t: x // k for t, x in p.items()}
                    r = {t: x // k for t, x in r.items()}
                if budget is not None:
                    budget[0] -= len(h) + len(p)
                    if budget[0] < 0 or any(x.bit_length() > 300 for x in (list(p.values())[:2])):
                        raise TooBig()
                break
        else:
            r[m] = p.pop(m)
    return primitive(r, key)


def buchberger(f, key, steps=20000):
    """The reduced Groebner basis (primitive, positive leading coefficients), as {lm: poly}."""
    budget = [steps]
    g = []
    pairs = []

    def addp(p):
        k = len(g)
        l = lm(p, key)
        g.append((l, p))
        for i in range(k):
            if g[i][0][0] == l[0]:
                pairs.append((sum(max(x, y) for x, y in zip(g[i][0][1], l[1])), i, k))
    for p in sorted((primitive(p, key) for p in f if p), key=len):
        r = nf(p, g, key, budget)
        if r:
            addp(r)
    while pairs:
        pairs.sort(reverse=True)
        d, i, j = pairs.pop()
        (li, pi), (lj, pj) = g[i], g[j]
        if li[0] < 0 and not any(x and y for x, y in zip(li[1], lj[1])):
            continue
        if d > 14:
            raise TooBig()
        m = tuple(max(x, y) for x, y in zip(li[1], lj[1]))
        a, b = pi[li], pj[lj]
        k = gcd(a, b)
        s = add(shift(pi, quo((0, m), li), b // k), shift(pj, quo((0, m), lj), a // k), -1)
        r = nf(s, g, key, budget)
        if r:
            addp(r)
            if len(g) > 60:
                raise TooBig()
    keep = [i for i in range(len(g)) if not any(divides(g[j][0], g[i][0]) and (g[j][0] != g[i][0] or j < i) for j in range(len(g)) if j != i)]
    res = {}
    for i in keep:
        l, p = g[i]
        rest = [g[j] for j in keep if j != i]
        res[l] = nf(p, rest, key, budget)
    return res


def standard(lms, n, pos, s):
    """Number of monomials of degree <= s in component pos divisible by none of lms."""
    us = [m[1] for m in lms if m[0] == pos]

    def go(us, n, s):
        # us: exponent tuples of length n
        if any(not any(u) for u in us):
            return 0
        if not us:
            return math.comb(s + n, n)
        if (us, n, s) in memo:
            return memo[us, n, s]
        t = 0
        for k in range(s + 1):
            cur = frozenset(u[1:] for u in us if u[0] <= k)
            t += go(cur, n - 1, s - k)
        memo[us, n, s] = t
        return t
    memo = {}
    return go(frozenset(us), n, s)


def janet_completion_size(lms, n, limit):
    """Size of the Janet completion of the monomials, or TooBig."""
    total = 0
    for pos in {m[0] for m in lms}:
        U = [m[1] for m in lms if m[0] == pos]

        def nonm(u, v):
            return any(w[:v] == u[:v] and w[v] > u[v] for w in U)
        todo = True
        while todo:
            todo = False
            for u in list(U):
                for v in range(n):
                    if nonm(u, v):
                        p = u[:v] + (u[v] + 1,) + u[v + 1:]
                        if not any(all(p[i] == w[i] or (p[i] > w[i] and not nonm(w, i)) for i in range(n)) for w in U):
                            U.append(p)
                            todo = True
                            if len(U) > limit:
                                raise TooBig()
        total += len(U)
    return total


def show(a, key=None):
    ms = sorted(a, key=key, reverse=True) if key else sorted(a, reverse=True)
    return " + ".join("%s*%s%s" % (a[m], "" if m[0] < 0 else "[%d]" % m[0], list(m[1])) for m in ms) or "0"
