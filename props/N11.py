"""Prime counting and sums of primes."""
from symx.run import harness, META, windows
from symx.oracle import *
from .N10 import upto

META['N11'] = dict(bounds='n any value in the listed windows: small n, and windows above the prime table '
                          'placed around squares, cubes and fourth powers of primes, and listed n up to 9.7 million')
P = 'rosemary.number_theory.primes.prime_counting'
FAST = ('legendre', 'meissel', 'lehmer', 'lmo')


def near(xs, r, **kw):
    return [dict(kw, lo=a - r, hi=a + r) for a in xs]


_PI = {}


def pi(n):
    from bisect import bisect_right
    from . import N10
    L = N10.plist(max(n + 1, 2200000 if n <= 2199999 else 10**7) if n > 10000 else 10001)
    return bisect_right(L, n)


@harness('N11', quick=windows(-5, 800, 90) + near((999983, 500009), 8), thorough=windows(-50, 20000, 500) + near((999983, 500009), 60))
def table_lookup(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    rs = [getattr(m, f)(n) for f in FAST]
    want = count_below(n, lo, hi)
    S.observe(rs)
    for f, r in zip(FAST, rs):
        S.check(r == want, f)


def count_below(n, lo, hi):
    """pi(n) as a formula: pi(lo) plus the primes in (lo, n]."""
    return sum_f([ite(n >= p, 1, 0) for p in upto(hi, lo + 1)], pi(lo))


SP = (1009**2, 1013**2, 101**3, 103**3, 37**4)
TP = SP + (1021**2, 107**3, 113**3, 17**5, 127**3)


@harness('N11', t=110, quick=near((999984,), 1) + [dict(lo=a - 1, hi=a) for a in SP],
         thorough=near((999984,), 4) + [dict(lo=a - 4, hi=a + 4) for a in TP])
def formulas(S, lo, hi):
    """The combinatorial formulas, beyond the prime table."""
    m = S.mod(P)
    n = S.conc(S.int('n', lo, hi))
    w = pi(n)
    for f in FAST:
        S.check(getattr(m, f)(n) == w, f)


@harness('N11', quick=windows(0, 240, 30) + near((343, 1331, 2197, 841, 961, 1369), 3) + near((42877, 43000, 59319, 100000, 117649), 2),
         thorough=windows(0, 3000, 150) + near((6859, 12167, 29791, 50653), 6))
def lmo_bit(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', max(lo, 0), hi)
    r = m.lmo_bit(n)
    v = S.conc(n)
    S.observe(v, r)
    S.check(S.conc(r) == pi(v), 'lmo_bit')


@harness('N11', quick=windows(1, 260, 30) + near((289, 361, 529, 841, 961, 1681, 2209), 3),
         thorough=windows(1, 4000, 150) + near((10201, 99**2, 97**2, 101**2), 6))
def sums_and_counts(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    a, b = m.prime_sum(n), m.prime_sum2(n)
    v = S.conc(n)
    S.observe(v, a, b)
    w = sum(upto(v))
    S.check(S.conc(a) == w, 'prime_sum')
    S.check(S.conc(b) == w, 'prime_sum2')
    if v >= 2:
        t = m.prime_count(v)
        S.check(all(t[v // i] == pi(v // i) for i in range(1, v // 2 + 1)), 'prime_count')


@harness('N11', quick=windows(0, 200, 40), thorough=windows(0, 2000, 100))
def table(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    ps, t = m.pi_table(n)
    v = S.conc(n)
    S.observe(v, t)
    S.check([S.conc(p) for p in ps] == upto(v), 'pi_table: primes')
    S.check([S.conc(p) for p in t] == [pi(k) for k in range(v + 1)], 'pi_table: table')


JUMP = (4849845, 9699690, 3233230, 2042040, 1939938, 9189180)


@harness('N11', t=110, quick=[dict(lo=a - d, hi=a - d) for a in JUMP for d in (0, 1)], thorough=[dict(lo=a - d, hi=a - d) for a in JUMP for d in (-1, 0, 1)])
def formulas_far(S, lo, hi):
    """Multiples of many small primes, where every term of the closed forms jumps."""
    m = S.mod(P)
    n = S.conc(S.int('n', lo, hi))
    for f in FAST:
        S.check(getattr(m, f)(n) == pi(n), f)
