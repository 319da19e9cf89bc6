"""Squares, powers, squarefree numbers and factorials."""
import math
from symx.run import harness, META, windows
from symx.oracle import *

META['N14'] = dict(bounds='n any value in the listed windows (around large powers too), any exponent k in '
                          'the listed range, factorizations with exponents up to the stated bound; listed numbers up to 2**80')
C = 'rosemary.number_theory.classification'


def near(xs, r, **kw):
    return [dict(kw, lo=a - r, hi=a + r) for a in xs]


def best_power(n):
    """n = r^k with k largest, n > 1."""
    f = factor_c(n) if n < 10**7 else None
    for k in range(n.bit_length(), 1, -1):
        r = round(n ** (1.0 / k)) if n < 10**12 else iroot(n, k)
        if r**k == n:
            return r, k
    return None


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m**k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


BIG = (45045**2, 2**40, 3**25, 10**12, 99999**2, 2**52, 94906267**2, (2**31 - 1)**2, 2**64, 10**18, 12**17, (10**9 + 7)**2, 7**24)


@harness('N14', quick=windows(-30, 1300, 50) + near(BIG[:9], 1), thorough=windows(-100, 12000, 300) + near(BIG, 5) + near((k * k for k in range(201, 260)), 1))
def square(S, lo, hi):
    m = S.mod(C)
    n = S.int('n', lo, hi)
    r = m.is_square(n)
    S.observe(r)
    v = S.conc(n)
    r = S.conc(r)
    if v >= 0 and isqrt(v)**2 == v:
        S.check(r == isqrt(v) and (v == 0 or r is not False), 'is_square misses a square')
    else:
        S.check(r is False, 'is_square accepts a non-square')


@harness('N14', quick=windows(1, 700, 100) + near(BIG, 1), thorough=windows(1, 5000, 250) + near(BIG, 6))
def power(S, lo, hi):
    m = S.mod(C)
    n = S.conc(S.int('n', lo, hi))
    r = m.is_power(n)
    S.observe(r)
    w = best_power(n) if n > 1 else None
    S.check((tuple(r) if r else None) == w, 'is_power')
    q = m.is_power2(n)
    ok = not q or (q[1] >= 2 and q[0]**q[1] == n)
    S.check(ok, 'is_power2 returns a wrong power')
    S.check(bool(q) == (w is not None), 'is_power2 misses a power')


@harness('N14', quick=windows(1, 130, 20) + near((144, 216, 243, 256, 289, 343, 512, 625, 729, 1024, 3**10, 2**20, 6**8, 10**12, 7**24), 1),
         thorough=windows(1, 3000, 200) + near((3**10, 2**20, 6**8, 10**12, 7**24, 11**12), 4))
def power_k(S, lo, hi):
    m = S.mod(C)
    n = S.int('n', lo, hi)
    v = S.conc(S.int('k', 1, 14))
    r = m.is_power(n, v)
    n = S.conc(n)
    S.observe(r)
    e = iroot(n, v)
    if e**v == n:
        S.check(bool(r) and S.conc(r[0]) == e and S.conc(r[1]) == v, 'is_power(n, k) misses a power')
    else:
        S.check(r is False, 'is_power(n, k) accepts a non-power')


@harness('N14', quick=[dict(ps=ps, E=4) for ps in ((2,), (2, 3), (3, 7), (2, 5, 11))], thorough=[dict(ps=ps, E=9) for ps in ((2,), (2, 3), (3, 7), (2, 5, 11))])
def from_factorization(S, ps, E):
    m = S.mod(C)
    es = S.ints('e', len(ps), 1, E)
    f = list(zip(ps, es))
    sq = m.is_square(f)
    sf = m.is_squarefree(f)
    k = S.int('k', 1, E + 1)
    pk = m.is_power(f, k)
    pw = m.is_power(f)
    S.check(biff(sf, all_f(e == 1 for e in es)), 'is_squarefree of a factorization')
    v, kk = [S.conc(e) for e in es], S.conc(k)
    n = math.prod(p**e for p, e in zip(ps, v))
    S.observe(sq, sf, pk, pw)
    w = isqrt(n)
    S.check((S.conc(sq) == w and sq is not False) if w * w == n else sq is False, 'is_square of a factorization')
    r = iroot(n, kk)
    S.check((pk and S.conc(pk[0]) == r and S.conc(pk[1]) == kk) if r**kk == n else pk is False, 'is_power(factorization, k)')
    g = math.gcd(*v)
    S.check((pw and S.conc(pw[0])**S.conc(pw[1]) == n and S.conc(pw[1]) == g) if g > 1 else pw is False, 'is_power(factorization)')


@harness('N14', quick=windows(1, 500, 40) + near((961, 1369, 1849, 2205, 3969), 3), thorough=windows(1, 5000, 150) + near((99**2, 97**2, 101**2), 9))
def squarefree(S, lo, hi):
    m = S.mod(C)
    n = S.int('n', lo, hi)
    r = m.is_squarefree(n)
    S.observe(r)
    S.check(biff(r, all_f(n % (p * p) != 0 for p in small_primes(isqrt(hi)))), 'is_squarefree')


@harness('N14', quick=windows(-5, 800, 150) + near((5040, 40320, 3628800), 3), thorough=windows(-5, 6000, 500) + near((40320, 362880, 3628800, math.factorial(15)), 9))
def factorial(S, lo, hi):
    m = S.mod(C)
    n = S.int('n', lo, hi)
    r = m.is_factorial(n)
    S.observe(r)
    S.check(biff(r, member(n, [math.factorial(i) for i in range(1, 20)])), 'is_factorial')


@harness('N14')
def domain(S):
    m = S.mod(C)
    n = S.int('n', None, 0)
    k = S.int('k', 1, 5)
    S.raises(ValueError, m.is_power, n)
    S.raises(ValueError, m.is_power, n, k)
    S.raises(ValueError, m.is_squarefree, n)
    z = S.int('z', None, 0)
    S.raises(ValueError, m.is_power, 8, z)
    S.check(m.is_square(n - 1) is False, 'is_square of a negative')
    S.check(m.is_square([(-1, 1), (2, 2)]) is False, 'is_square of a negative factorization')
    S.raises(ValueError, m.is_power, [(-1, 1), (2, 3)])


MODS = (63, 64, 65, 11, 45045, 1001, 1287, 1386, 3003, 3465, 4095, 5005, 6435, 9009, 15015, 255, 256, 257, 4096, 10**9, 2**31, 2**32, 94906265, 94906266, 2**53, 2**64)


@harness('N14', conc_div=True, quick=[dict(d=d) for d in MODS], thorough=[dict(d=d) for d in MODS])
def squares_of_multiples(S, d):
    """Squares whose root shares many factors with the moduli of a residue filter, and their neighbours."""
    m = S.mod(C)
    k = d * S.conc(S.int('j', 1, 13)) + S.choice('o', [0, 1, -1])
    e = S.choice('e', [0, 1, -1, 2])
    r = m.is_square(k * k + e)
    S.check((r == k and r is not False) if e == 0 else (r is False or k < 2), 'is_square near the square of %d' % k)


BASES = (2, 3, 5, 6, 7, 10, 12, 15, 30, 97, 101, 1000003, 2**31 - 1)


@harness('N14', conc_div=True, quick=[dict(r=r) for r in BASES], thorough=[dict(r=r) for r in BASES])
def large_powers(S, r):
    m = S.mod(C)
    k = S.choice('k', [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 20, 24, 25, 30])
    S.assume(r**k < 2**110)
    S.assume(r < 10**6 or k <= 3)
    e = S.choice('e', [0, 1, -1])
    b = best_power(r**k + e)
    x = m.is_power(r**k + e)
    if b is None:
        S.check(x is False, 'is_power accepts a number that is no power')
    else:
        S.check(x is not False and x[0]**x[1] == r**k + e and x[1] == b[1], 'is_power')
    x = m.is_power(r**k + e, k)
    S.check(x == (r, k) if e == 0 else x is False or x[0]**k == r**k + e, 'is_power(n, k)')
