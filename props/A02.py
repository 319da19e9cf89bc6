"""Division and greatest common divisors of polynomials."""
import random
from symx.run import harness, META, windows
from symx.oracle import *
from .A01 import conv, same, normal

META['A02'] = dict(bounds='degrees and coefficient ranges as listed; besides, listed coefficients up to 2**100')
P = 'rosemary.algebra.polynomials.polynomials'


@harness('A02', t=100, quick=[dict(m=m, n=n, B=B) for m, n, B in ((1, 1, 6), (2, 1, 5), (1, 2, 5), (2, 2, 4), (3, 2, 2), (3, 3, 2), (3, 1, 3))],
         thorough=[dict(m=m, n=n, B=B) for m, n, B in ((2, 1, 20), (2, 2, 6), (3, 2, 3), (3, 3, 2), (4, 2, 2), (4, 3, 3), (5, 3, 2))])
def division(S, m, n, B):
    M = S.mod(P)
    a, b = S.ints('a', m, -B, B), S.ints('b', n, -B, B)
    S.assume(b[-1] != 0)
    u, v = M.Polynomial(a), M.Polynomial(b)
    try:
        q, r = u.quo_rem(v)
    except ValueError:
        # there must be no exact quotient: if u = q v with integral q, no error
        ca, cb = [S.conc(x) for x in a], [S.conc(x) for x in b]
        S.check(not divides(cb, ca), 'quo_rem refuses an exact division')
        return
    S.observe(q.coefficients(), r.coefficients())
    w = conv(q.coefficients(), b)
    rc = r.coefficients()
    k = max(len(w), len(rc))
    w += [0] * (k - len(w))
    for i, c in enumerate(rc):
        w[i] = w[i] + c
    same(S, w, a, 'quo_rem: u != q*v + r')
    S.check(bor(len(rc) < n, all_f(c == 0 for c in rc)), 'quo_rem: the remainder is too long')
    same(S, u.coefficients(), a, 'the dividend was modified')


def divides(b, a):
    """b divides a over the integers."""
    a = list(a)
    while a and a[-1] == 0:
        a.pop()
    while a:
        if len(a) < len(b) or a[-1] % b[-1]:
            return False
        k, s = a[-1] // b[-1], len(a) - len(b)
        for i, c in enumerate(b):
            a[i + s] -= k * c
        while a and a[-1] == 0:
            a.pop()
    return True


@harness('A02', t=100, quick=[dict(m=m, n=n, B=B) for m, n, B in ((1, 1, 9), (2, 1, 9), (1, 2, 5), (2, 2, 6), (3, 2, 4), (3, 3, 3), (4, 2, 3), (4, 3, 2))],
         thorough=[dict(m=m, n=n, B=B) for m, n, B in ((2, 2, 30), (3, 2, 12), (3, 3, 9), (4, 2, 6), (4, 3, 5), (5, 3, 3), (5, 2, 4), (6, 3, 2))])
def pseudo_division(S, m, n, B):
    M = S.mod(P)
    a, b = S.ints('a', m, -B, B), S.ints('b', n, -B, B)
    S.assume(b[-1] != 0)
    S.assume(a[-1] != 0)
    u, v = M.Polynomial(a), M.Polynomial(b)
    q, r = u.pseudo_quo_rem(v)
    S.observe(q.coefficients(), r.coefficients())
    l = b[-1]**(m - n + 1) if m >= n else 1
    w = conv(q.coefficients(), b)
    rc = r.coefficients()
    w += [0] * (len(rc) - len(w))
    for i, c in enumerate(rc):
        w[i] = w[i] + c
    same(S, w, [l * c for c in a], 'pseudo_quo_rem: l^(m-n+1) u != q*v + r')
    if n > 1:
        S.check(bor(len(rc) < n, all_f(c == 0 for c in rc)), 'pseudo_quo_rem: the remainder is too long')
    else:
        S.check(all_f(c == 0 for c in rc) if m >= n else True, 'pseudo_quo_rem by a constant: nonzero remainder')


def cont(a):
    from math import gcd
    g = 0
    for c in a:
        g = gcd(g, c)
    return g


@harness('A02', t=100, quick=[dict(m=m, B=B) for m, B in ((1, 8), (2, 6), (3, 4))], thorough=[dict(m=m, B=B) for m, B in ((1, 40), (2, 14), (3, 7))])
def content(S, m, B):
    M = S.mod(P)
    a = S.ints('a', m, -B, B)
    f = M.PolyZZ(a)
    c, p = f.content(), f.primitive_part()
    S.observe(c, p.coefficients())
    S.check(gcd_is(c, a, B), 'content')
    v = [S.conc(x) for x in a]
    pc = [S.conc(x) for x in p.coefficients()]
    if any(v):
        while v[-1] == 0:
            v.pop()
        g = cont(v)
        S.check(pc[-1] > 0, 'leading coefficient of the primitive part')
        S.check(cont(pc) == 1 and [x * g * (1 if v[-1] > 0 else -1) for x in pc] == v, 'primitive part')
    else:
        S.check(pc == [0], 'primitive part of zero')


def pgcd(a, b):
    """Primitive-PRS gcd of integer polynomials, with content; leading coeff > 0."""
    from math import gcd

    def strip(x):
        x = list(x)
        while x and x[-1] == 0:
            x.pop()
        return x

    def prim(x):
        g = cont(x)
        if x[-1] < 0:
            g = -g
        return [c // g for c in x]
    a, b = strip(a), strip(b)
    if not a and not b:
        return [0]
    if not a or not b:
        x = a or b
        return [c * (1 if x[-1] > 0 else -1) for c in x]
    d = gcd(cont(a), cont(b))
    a, b = prim(a), prim(b)
    while True:
        r = list(a)
        if len(a) < len(b):
            a, b = b, a
            continue
        while len(r) >= len(b):
            l, s = r[-1], len(r) - len(b)
            r = [c * b[-1] for c in r]
            for i, c in enumerate(b):
                r[i + s] -= l * c
            r = strip(r)
        if not r:
            return [c * d for c in b]
        if len(r) == 1:
            return [d]
        a, b = b, prim(r)


GQ = [dict(m=m, n=n, B=B) for m, n, B in ((1, 1, 6), (2, 1, 4), (2, 2, 3), (3, 2, 2), (3, 3, 1), (4, 3, 1), (1, 3, 2))]


@harness('A02', t=110, quick=GQ, thorough=[dict(m=m, n=n, B=B) for m, n, B in ((2, 2, 6), (3, 2, 3), (3, 3, 2), (4, 3, 1), (4, 4, 1), (5, 4, 1))])
def gcd(S, m, n, B):
    M = S.mod(P)
    a, b = S.ints('a', m, -B, B), S.ints('b', n, -B, B)
    va, vb = [S.conc(x) for x in a], [S.conc(x) for x in b]
    g = M.PolyZZ(va).gcd(M.PolyZZ(vb))
    S.observe(g.coefficients())
    r = [S.conc(x) for x in g.coefficients()]
    S.check(r == pgcd(va, vb), 'gcd')


@harness('A02', t=110, quick=[dict(h=[1, 1]), dict(h=[-2, 0, 1]), dict(h=[3, 2])], thorough=[dict(h=h) for h in ([1, 1], [-2, 0, 1], [3, 2], [1, 0, 0, 2], [4, -6])])
def gcd_with_common_factor(S, h):
    """u = h*(a + b x + c x^2), v = h*(d + e x + x^3): several division steps."""
    M = S.mod(P)
    a = [S.conc(x) for x in S.ints('a', 3, -1, 2)]
    b = [S.conc(x) for x in S.ints('b', 2, -1, 1)] + [0, 1]
    u, v = conv(h, a), conv(h, b)
    g = M.PolyZZ(u).gcd(M.PolyZZ(v))
    S.observe(g.coefficients())
    S.check(g.coefficients() == pgcd(u, v), 'gcd')
    g = M.PolyZZ(v).gcd(M.PolyZZ(u))
    S.check(g.coefficients() == pgcd(u, v), 'gcd (swapped)')


@harness('A02', t=110, quick=[dict(h=h, degs=list(d)) for h in ([1, 1], [3, 2]) for d in ((1, 1, 1), (2, 1), (1, 2, 1), (1, 1, 2), (1, 2, 1, 1), (1, 3, 1, 1))] + [dict(h=[3, 2], degs=list(d)) for d in ((2, 1, 2, 1, 1), (1, 1, 2, 1, 1), (1, 1, 1, 1, 1))],
         thorough=[dict(h=h, degs=list(d)) for h in ([1, 1], [3, 2], [1, 0, 2]) for d in ((1, 1, 1, 1), (3, 1), (1, 2, 1, 1), (2, 1, 2, 1), (1, 1, 2, 1), (1, 1, 1, 1, 1))])
def gcd_chain(S, h, degs):
    """A remainder sequence with the listed degrees of quotients, so with and without gaps in
    the degrees, ending in h."""
    M = S.mod(P)
    u, v = list(h), [0]
    for i, d in enumerate(degs[::-1]):
        q = [S.conc(S.int('c%d' % i, 0, 1))] + [0] * (d - 1) + [S.conc(S.int('l%d' % i, 1, 3 if len(degs) < 5 else 2))]
        w = conv(q, u)
        for j, x in enumerate(v):
            w[j] += x
        u, v = w, u
    g = M.PolyZZ(u).gcd(M.PolyZZ(v))
    S.observe(g.coefficients())
    want = pgcd(u, v)
    S.check(g.coefficients() == want, 'gcd')
    S.check(M.PolyZZ(v).gcd(M.PolyZZ(u)).coefficients() == want, 'gcd (swapped)')


# cofactors whose remainder sequences have several gaps of degree
GAPS = [([1, 1, 2], [3, 0, 1, 1, 2, -1, 2, -1, 3], [0, -1, 0, 3, -1, -1, 3]), ([5, 2], [2, 3, 0, 0, 0, -1, 0, 2], [-1, -1, 0, 0, 0, 1, -1, 3]),
        ([2, 1], [1, 2, 1, 0, 0, 0, 1], [1, 2, 2, 2, 2, 2, 3]), ([3, 1], [3, -1, 3, 3, 0, 0, 2, 2], [1, 3, 0, -1, 0, 0, 1, 3]),
        ([2, 1], [0, 0, 3, 0, 1, 0, 0, 0, 3], [-1, 2, 3, -1, -1, 0, 0, 2]), ([5, 1], [3, 1, 0, -1, -1, 0, 3, 2], [3, 3, 2, -1, 0, 0, 3]),
        ([5, 3], [2, -1, 1, 0, 0, 0, 2, 0, 2], [2, 0, 1, 0, 0, 0, -1, 1]), ([5, 2], [3, 2, -1, 0, 0, 0, -1, 0, 1], [2, -1, 3, 0, 0, 0, 3])]


def scattered(k):
    r = random.Random(k)
    d = r.choice((5, 6, 7, 8, 9))
    c = (0, 0, 1, -1, 2, 3)
    return ([r.choice((1, 2, 3, 5)), r.choice((1, 2, 3))], [r.choice(c) for _ in range(d)] + [r.choice((1, 2, 3))],
            [r.choice(c) for _ in range(d - r.choice((0, 1, 2)))] + [r.choice((1, 2, 3))])


@harness('A02', t=110, quick=[dict(lo=0, hi=8), dict(lo=100, hi=220)], thorough=[dict(lo=0, hi=8)] + windows(100, 3000, 300))
def gcd_gaps(S, lo, hi):
    """Products of sparse cofactors with a common factor, either of which may change its sign."""
    M = S.mod(P)
    h, a, b = S.choice('k', GAPS if lo == 0 else [scattered(k) for k in range(lo, hi)])
    s = S.choice('s', [1, -1]) if lo == 0 else 1
    u, v = conv(h, a), [s * x for x in conv(h, b)]
    g = M.PolyZZ(u).gcd(M.PolyZZ(v))
    S.observe(g.coefficients())
    want = pgcd(u, v)
    S.check(g.coefficients() == want, 'gcd')
    S.check(M.PolyZZ(v).gcd(M.PolyZZ(u)).coefficients() == want, 'gcd (swapped)')


@harness('A02', t=100, quick=[dict(m=m, n=n) for m, n in ((2, 2), (3, 2), (5, 3), (6, 2))], thorough=[dict(m=m, n=n) for m, n in ((2, 2), (3, 2), (5, 3), (6, 2), (8, 4))])
def huge_values(S, m, n):
    """Coefficients beyond 2**53."""
    from .A01 import huge
    M = S.mod(P)
    v = S.conc(S.int('v', -2, 2))
    q, b = huge(S, m, 1, 1, v), huge(S, n, 6, 0, v + 7)
    r = [3 * v, 2**61 + v][:n - 1]
    a = conv(q, b)
    for i, c in enumerate(r):
        a[i] += c
    x, y = M.Polynomial(a).quo_rem(M.Polynomial(b))
    same(S, x.coefficients(), q, 'quo_rem: quotient')
    same(S, y.coefficients(), r, 'quo_rem: remainder')
    l = b[-1]**m
    x, y = M.Polynomial(a).pseudo_quo_rem(M.Polynomial(b))
    same(S, x.coefficients(), [l * c for c in q], 'pseudo_quo_rem: quotient')
    same(S, y.coefficients(), [l * c for c in r], 'pseudo_quo_rem: remainder')
    h = M.PolyZZ(a).gcd(M.PolyZZ(conv(q, [v, 5, 3])))
    S.check(list(h.coefficients()) == pgcd(a, conv(q, [v, 5, 3])), 'gcd')
    k = (10**17 + 3) * (3 - v)
    f = M.PolyZZ([c * k for c in q])
    S.check(f.content() == abs(k) * cont(q), 'content')
    s = cont(q) * (1 if q[-1] * k > 0 else -1) * (1 if k > 0 else -1)
    S.check(list(f.primitive_part().coefficients()) == [c // s for c in q], 'primitive part')


@harness('A02', quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def coerced(S, n):
    """Divisors given as a list or a number."""
    M = S.mod(P)
    a = [S.conc(S.int('a%d' % i, -2, 2)) for i in range(n)] + [S.conc(S.int('l', 1, 2))]
    b = [S.conc(S.int('b', -3, 3)), S.choice('m', [1, -1])]
    u = M.Polynomial(a)
    for f in ('quo_rem', 'pseudo_quo_rem'):
        q, r = getattr(u, f)(M.Polynomial(b))
        for other in (list(b), tuple(b)):
            x, y = getattr(u, f)(other)
            S.check(x.coefficients() == q.coefficients() and y.coefficients() == r.coefficients(), f + ' by a list')
    x, y = u.quo_rem(b[1])
    S.check(x.coefficients() == [b[1] * c for c in a] and y == 0, 'quo_rem by a number')
    x, y = u.pseudo_quo_rem(2)
    S.check(y == 0 and x.coefficients() == [2**n * c for c in a], 'pseudo_quo_rem by a number')
