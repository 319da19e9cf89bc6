"""Continued fractions of quadratic irrationals and Pell equations."""
import math
from itertools import islice
from symx.run import harness, META, windows
from symx.oracle import *

META['N15'] = dict(bounds='d (or D) any non-square in the listed windows, p and q any values in the listed '
                          'ranges, N any nonzero value in the listed range; solutions compared up to the '
                          'stated size; the first listed number of terms of an expansion; listed discriminants up to 2**100 '
                          'for expansions and 1621 for least solutions')
C = 'rosemary.number_theory.continued_fractions'
P = 'rosemary.number_theory.diophantine_equations.pell'


def square(n):
    return n >= 0 and isqrt(n)**2 == n


def floor_q(p, d, q):
    """floor((p + sqrt(d)) / q) for non-square d."""
    s = isqrt(d)
    return (p + s) // q if q > 0 else (p + s + 1) // q


def quotients(d, p, q, n):
    """(terms, pre-period length, period length)."""
    if (d - p * p) % q:
        p, d, q = p * abs(q), d * q * q, q * abs(q)
    out, seen = [], {}
    while (p, q) not in seen:
        seen[p, q] = len(out)
        a = floor_q(p, d, q)
        out.append(a)
        p = a * q - p
        q = (d - p * p) // q
    j = seen[p, q]
    pre, per = len(out[:j]), len(out) - j
    while len(out) < n:
        out.append(out[len(out) - per])
    return out[:n], pre, per


@harness('N15', quick=windows(2, 200, 20), thorough=windows(2, 2000, 60))
def sqrt_expansion(S, lo, hi):
    m = S.mod(C)
    d = S.int('d', lo, hi)
    v = S.conc(d)
    if square(v):
        S.raises(ValueError, m.QuadraticIrrational, v)
        return
    x = m.QuadraticIrrational(v)
    t = list(islice(x.partial_quotients(), 40))
    w, pre, per = quotients(v, 0, 1, 40)
    S.observe(t)
    S.check([S.conc(a) for a in t] == w, 'partial quotients of sqrt(d)')
    S.check(x.period_length == per and len(x.fundamental_period) == per, 'period of sqrt(d)')
    S.check(list(x.pre_period) == w[:1], 'pre-period of sqrt(d)')


@harness('N15', quick=[dict(ds=[2, 3, 5], Q=7, R=7), dict(ds=[6, 7, 8], Q=6, R=6), dict(ds=[13, 15, 23], Q=6, R=6), dict(ds=[40, 61], Q=6, R=6)],
         thorough=[dict(ds=[d], Q=14, R=12) for d in (2, 3, 5, 6, 7, 8, 10, 11, 12, 13, 15, 19, 22, 31, 40, 61, 94, 109)])
def quadratic_expansion(S, ds, Q, R):
    m = S.mod(C)
    d = S.choice('d', ds)
    p, q = S.int('p', -R, R), S.int('q', -Q, Q)
    S.assume(q != 0)
    p, q = S.conc(p), S.conc(q)
    x = m.QuadraticIrrational(d, p, q)
    t = list(islice(x.partial_quotients(), 40))
    w, pre, per = quotients(d, p, q, 40)
    S.observe(t)
    S.check(t == w, 'partial quotients of (p + sqrt(d))/q')
    S.check(x.period_length == len(x.fundamental_period), 'period length')
    S.check(x.period_length == per, 'the period is not minimal')


@harness('N15', quick=[dict(ds=[2, 3, 5, 6, 7]), dict(ds=[13, 14, 19, 23, 61])], thorough=[dict(ds=[d]) for d in range(2, 60) if not square(d)])
def convergents(S, ds):
    """Convergents are the best approximations: h*k' - h'*k = +-1 and the error
    alternates in sign."""
    m = S.mod(C)
    d = S.choice('d', ds)
    p, q = S.int('p', -5, 5), S.int('q', 1, 4)
    p, q = S.conc(p), S.conc(q)
    c = list(islice(m.QuadraticIrrational(d, p, q).convergents(), 14))
    S.observe(c)
    for i, (a, b) in enumerate(c):
        S.check(b >= 1, 'denominator')
        # sign of (a/b - (p+sqrt d)/q) = sign of (q a - p b) - b sqrt d
        l = q * a - p * b
        less = l < 0 or l * l < b * b * d
        S.check(less == (i % 2 == 0), 'convergents do not alternate around the value')
        if i:
            S.check(a * c[i - 1][1] - c[i - 1][0] * b == (-1)**(i + 1), 'determinant of consecutive convergents')


@harness('N15', quick=windows(2, 110, 12), thorough=windows(2, 600, 25))
def pell_fundamental(S, lo, hi):
    m = S.mod(P)
    D = S.conc(S.int('D', lo, hi))
    n = S.choice('n', [1, -1])
    if square(D):
        S.raises(ValueError, m.pell_fundamental_solution, D, n)
        S.raises(ValueError, m.PellEquation, D, n)
        return
    w = fundamental(D, n)
    if w is None:
        S.raises(ValueError, m.pell_fundamental_solution, D, n)
        S.raises(ValueError, m.PellEquation(D, n).resolvent_solution)
        return
    r = m.pell_fundamental_solution(D, n)
    S.observe(r)
    S.check(tuple(r) == w, 'pell_fundamental_solution')
    S.check(tuple(m.PellEquation(D, n).resolvent_solution()) == w, 'resolvent_solution')
    if n == 1:
        S.check(tuple(m.pell_fundamental_solution(D)) == w, 'pell_fundamental_solution default')


def fundamental(D, n):
    """Least positive solution of x^2 - D y^2 = n, through the expansion of sqrt D:
    the convergent before the end of the (doubled) period."""
    t, pre, per = quotients(D, 0, 1, 2)
    if n == -1 and per % 2 == 0:
        return None
    k = per if n == -1 or per % 2 == 0 else 2 * per
    t = quotients(D, 0, 1, k)[0]
    h0, h1, k0, k1 = 0, 1, 1, 0
    for a in t[:k]:
        h0, h1 = h1, a * h1 + h0
        k0, k1 = k1, a * k1 + k0
    assert h1 * h1 - D * k1 * k1 == n
    return h1, k1


FAR = (139, 151, 163, 166, 181, 199, 211, 214, 241, 277, 313, 397, 409, 421, 541, 571, 601, 631, 661, 991, 999, 1621)


@harness('N15', conc_div=True, t=100, quick=[dict(D=D) for D in FAR], thorough=[dict(D=D) for D in FAR + (1831, 2011, 2311, 4729, 9949)])
def pell_far(S, D):
    """Discriminants whose least solution is beyond 2**53."""
    m = S.mod(P)
    n = S.choice('n', [1, -1])
    w = fundamental(D, n)
    if w is None:
        S.raises(ValueError, m.pell_fundamental_solution, D, n)
        return
    S.check(tuple(m.pell_fundamental_solution(D, n)) == w, 'pell_fundamental_solution')
    S.check(tuple(m.PellEquation(D, n).resolvent_solution()) == w, 'resolvent_solution')


ROOTS = (10**4, 2**26 + 1, 94906267, 10**9, 2**31 - 1, 10**12, 2**50 + 1)


@harness('N15', conc_div=True, quick=[dict(r=r) for r in ROOTS], thorough=[dict(r=r) for r in ROOTS + (10**30,)])
def expansion_far(S, r):
    """Large d with a short period."""
    m = S.mod(C)
    v = S.choice('v', [r * r + 1, r * r + 2, r * r - 1, r * r - 2, r * r + r, r * r + 2 * r - 1])
    x = m.QuadraticIrrational(v)
    w, pre, per = quotients(v, 0, 1, 12)
    S.check(list(islice(x.partial_quotients(), 12)) == w, 'partial quotients of sqrt(%d)' % v)
    S.check(x.period_length == per, 'period of sqrt(%d)' % v)
    S.raises(ValueError, m.QuadraticIrrational, r * r)


@harness('N15', quick=windows(2, 24, 1), thorough=windows(2, 60, 1))
def pell_minimality(S, lo, hi):
    """No smaller positive solution exists: decided by the solver."""
    m = S.mod(P)
    if square(lo):
        return S.check(True)
    x, y = m.pell_fundamental_solution(lo, 1)
    S.observe(x, y)
    v = S.int('v', 1, min(y, 4000), bv=True)
    u = S.int('u', 1, min(x, isqrt(lo) * 4000 + 4000), bv=True)
    S.check(implies(band(u * u - lo * v * v == 1, v < y), False), 'a smaller positive solution exists')


NP = [D for D in range(2, 32) if not square(D)]


@harness('N15', t=100, quick=[dict(Ds=NP[i::8], R=26, B=2000) for i in range(8)],
         thorough=[dict(Ds=[D], R=80, B=20000) for D in range(2, 75) if not square(D)])
def pell_general(S, Ds, R, B):
    """Every positive solution up to B is generated exactly once, and nothing else."""
    m = S.mod(P)
    D = S.choice('D', Ds)
    N = S.int('N', -R, R)
    S.assume(N != 0)
    n = S.conc(N)
    g = [(S.conc(x), S.conc(y)) for x, y in m.pell_solution_generator(D, n, B)]
    S.observe(g)
    S.check(all(x * x - D * y * y == n for x, y in g), 'not a solution')
    S.check(len(set(g)) == len(g), 'a solution is repeated')
    pos = sorted(t for t in g if t[0] > 0 and t[1] > 0)
    want = []
    for y in range(1, B + 1):
        z = n + D * y * y
        if z > B * B:
            break
        if square(z) and z > 0:
            want.append((isqrt(z), y))
    S.check(pos == sorted(want), 'a positive solution is missed')
    mins = m.pell_minimal_positive_solutions(D, n)
    S.check(bool(mins) == bool(g) or all(max(t) > B for t in mins), 'minimal solutions')
    S.check(all(x * x - D * y * y == n and x >= 0 and y >= 0 for x, y in mins), 'minimal solution does not solve')
    S.check(list(mins) == sorted(mins), 'minimal solutions not sorted')


@harness('N15', quick=[dict(lo=2, hi=20), dict(lo=21, hi=45)], thorough=windows(2, 150, 15))
def pell_small_values(S, lo, hi):
    """Values below sqrt(D): the coprime solutions in order, and the solutions of one period."""
    m = S.mod(P)
    D = S.conc(S.int('D', lo, hi))
    if square(D):
        S.raises(ValueError, lambda: list(islice(m.pell_small(D, 1), 1)), label='square D')
        return
    k = isqrt(D)
    n = S.conc(S.int('n', -k, k))
    S.assume(n != 0)
    w = []
    for y in range(1, 400):
        x2 = n + D * y * y
        x = isqrt(x2) if x2 > 0 else 0
        if x > 0 and x * x == x2 and math.gcd(x, y) == 1:
            w.append((x, y))
    if w:
        S.check([tuple(t) for t in islice(m.pell_small(D, n), len(w))] == w, 'pell_small')
    S.check(all(x * x - D * y * y == n for x, y in m._pell_small_minimal_positive_solutions(D, n)), 'pell_small minimal: not a solution')


@harness('N15')
def domain(S):
    m = S.mod(P)
    D = S.int('D', None, 0)
    S.raises(ValueError, m.pell_fundamental_solution, D)
    S.raises(ValueError, m.PellEquation, D, 1)
    n = S.int('n')
    S.assume(band(n != 1, n != -1))
    S.raises(ValueError, m.pell_fundamental_solution, 7, n)


@harness('N15', quick=[dict(r=r) for r in (1, 2, 5, 10)], thorough=[dict(r=r) for r in range(1, 30)])
def rational(S, r):
    """Squares are refused whatever p and q are."""
    m = S.mod(C)
    p, q = S.int('p', -2, 3), S.int('q', 1, 3)
    S.raises(ValueError, m.QuadraticIrrational, r * r, S.conc(p), S.conc(q), label='QuadraticIrrational of a square')
