"""Jacobi/Legendre symbol and square roots modulo primes and composites."""
from symx.run import harness, META, windows
from symx.oracle import *

META['N04'] = dict(bounds='a any integer; moduli every value in the listed windows',
                   assumptions=['the random non-residue search succeeds within 2 draws (every draw '
                                'value is covered)'])
C = 'rosemary.number_theory.core'
Z = 'rosemary.number_theory.zn_arithmetic'


def jac(a, m):
    r = 1
    for p in prime_factors(m):
        k = 0
        while m % p == 0:
            m //= p
            k += 1
        l = 0 if a % p == 0 else (1 if pow(a, (p - 1) // 2, p) == 1 else -1)
        r *= l**k
    return r


def odd(a, b, n):
    xs = list(range(a, b, 2))
    return [dict(ms=xs[i::n]) for i in range(n)]


@harness('N04', conc_div=True, quick=odd(1, 64, 8), thorough=odd(1, 200, 16))
def jacobi(S, ms):
    c = S.mod(C)
    m = S.choice('m', ms)
    a = S.int('a')
    r = c.jacobi_symbol(a, m)
    S.observe(r)
    S.check(r == table(a % m, lambda v: jac(v, m)), 'jacobi_symbol')


@harness('N04', conc_div=True, quick=[dict(B=24)], thorough=[dict(B=60)])
def jacobi_even(S, B):
    c = S.mod(C)
    a, m = S.int('a', -5, 5), S.int('m', -B, B)
    S.assume(m % 2 == 0)
    S.raises(ValueError, c.jacobi_symbol, a, m)


def primes_split(top, n):
    ps = small_primes(top)
    return [dict(ps=ps[i::n]) for i in range(n)]


@harness('N04', conc_div=True, random='nondet', max_rand=2, quick=primes_split(37, 8),
         thorough=primes_split(110, 16))
def sqrt_p(S, ps):
    z = S.mod(Z)
    p = S.choice('p', ps)
    a = S.int('a')
    r = z.sqrts_mod_p(a, p)
    S.observe(r)
    S.check(increasing(r), 'roots not sorted')
    v = S.conc(a % p)
    S.check([S.conc(x) for x in r] == [x for x in range(p) if (v - x * x) % p == 0],
            'sqrts_mod_p: wrong root set')


@harness('N04', conc_div=True, path_t=40, quick=[dict(ns=list(range(1 + i, 41, 8))) for i in range(8)] +
         [dict(ns=[48]), dict(ns=[64]), dict(ns=[49]), dict(ns=[72]), dict(ns=[81])],
         thorough=[dict(ns=list(range(1 + i, 110, 16))) for i in range(16)] + [dict(ns=[n]) for n in (128, 243, 125, 144, 256, 225, 343, 360)])
def sqrt_n(S, ns):
    z = S.mod(Z)
    n = S.choice('n', ns)
    a = S.int('a')
    r = z.sqrts_mod_n(a, n)
    S.observe(r)
    S.check(increasing(r), 'roots not sorted')
    v = S.conc(a % n)
    S.check([S.conc(x) for x in r] == [x for x in range(n) if (v - x * x) % n == 0],
            'sqrts_mod_n: wrong root set')


@harness('N04', conc_div=True, quick=[dict(ns=[9, 15, 16, 21, 24, 45])], thorough=[dict(ns=[8, 9, 15, 16, 21, 24, 45, 60, 63, 75, 105])])
def sqrt_n_given(S, ns):
    """A supplied factorization, in any order, gives the same answer."""
    z = S.mod(Z)
    n = S.choice('n', ns)
    a = S.int('a', -n, 2 * n)
    f = factor_c(n)
    if S.choice('rev', [False, True]):
        f.reverse()
    r = z.sqrts_mod_n(a, n, n_factorization=f)
    S.observe(r)
    S.check(increasing(r), 'roots not sorted')
    v = S.conc(a % n)
    S.check([S.conc(x) for x in r] == [x for x in range(n) if (v - x * x) % n == 0],
            'sqrts_mod_n: wrong root set')


def unit_roots(u, p, k):
    """The number of roots of the unit u modulo p**k (k >= 0)."""
    if k == 0:
        return 1
    if p == 2:
        return 1 if k == 1 else 2 * (u % 4 == 1) if k == 2 else 4 * (u % 8 == 1)
    return 2 if pow(u, (p - 1) // 2, p) == 1 else 0


def count_roots(a, p, k):
    """The number of x modulo p**k with x*x = a."""
    a %= p**k
    if a == 0:
        return p**(k // 2)
    v = 0
    while a % p == 0:
        a //= p
        v += 1
    return 0 if v % 2 else p**(v // 2) * unit_roots(a, p, k - v)


def roots_of(S, r, a, f, what):
    """r lists distinct roots in order, as many as there are."""
    n = w = 1
    for p, k in f:
        n *= p**k
        w *= count_roots(a, p, k)
    S.check(all(0 <= x < n and (x * x - a) % n == 0 for x in r), what + ': not a root')
    S.check(all(x < y for x, y in zip(r, r[1:])), what + ': not sorted and distinct')
    S.check(len(r) == w, what + ': a root is missing')


POWERS = [(2, k) for k in range(7, 21)] + [(3, k) for k in range(4, 12)] + [(5, 5), (5, 8), (7, 4), (7, 6), (11, 4), (13, 3), (17, 3), (97, 2), (101, 3), (257, 2)]


@harness('N04', conc_div=True, random='seeded', quick=[dict(p=p, k=k) for p, k in POWERS], thorough=[dict(p=p, k=k) for p, k in POWERS + [(2, 24), (2, 30), (2, 40), (3, 16), (3, 20), (5, 12), (193, 4), (7681, 3)]])
def prime_powers(S, p, k):
    """Higher powers of primes, with the roots counted by the theory."""
    z = S.mod(Z)
    a = S.choice('base', [0, 1, p * p, p**2 * 4, p**4, p, p**k - 1, p**(k - 1)]) + S.conc(S.int('t', -9, 9)) * S.choice('s', [1, p])
    S.assume(count_roots(a, p, k) <= 2000)
    r = z.sqrts_mod_n(a, p**k)
    roots_of(S, r, a, [(p, k)], 'sqrts_mod_n of a prime power')


HIGH2 = (97, 193, 257, 577, 7681, 12289, 40961, 65537, 10**9 + 7, 10**9 + 9, 2**31 - 1, 2**61 - 1, 67280421310721)


@harness('N04', conc_div=True, random='seeded', quick=[dict(p=p) for p in HIGH2], thorough=[dict(p=p) for p in HIGH2 + (2**89 - 1, 2**127 - 1)])
def large_primes(S, p):
    """Large primes, also with a high power of two in p - 1."""
    z, c = S.mod(Z), S.mod(C)
    if S.choice('square', [False, True]):
        x = S.choice('x', [2, 3, 7, 10**6, p // 2, p // 3, p - 5, pow(3, p // 7, p), pow(5, p // 11, p)]) + S.conc(S.int('t', -3, 3))
        a = x * x % p
    else:
        a = S.conc(S.int('a', -12, 40))
    S.check(c.jacobi_symbol(a, p) == (0 if a % p == 0 else 1 if pow(a, (p - 1) // 2, p) == 1 else -1), 'jacobi_symbol at a large prime')
    roots_of(S, z.sqrts_mod_p(a, p), a, [(p, 1)], 'sqrts_mod_p at a large prime')


MIXED = ([(2, 8), (3, 5)], [(2, 3), (3, 2), (5, 1), (7, 1), (11, 1)], [(3, 3), (5, 2), (7, 2)], [(2, 5), (12289, 1)], [(10007, 1), (10009, 1)], [(2, 1), (257, 2)], [(2, 12), (5, 3)],
         [(3, 1), (5, 1), (7, 1), (11, 1), (13, 1), (17, 1)])


@harness('N04', conc_div=True, random='seeded', quick=[dict(i=i) for i in range(len(MIXED))], thorough=[dict(i=i) for i in range(len(MIXED))])
def large_composites(S, i):
    z, c = S.mod(Z), S.mod(C)
    f = MIXED[i]
    n = 1
    for p, k in f:
        n *= p**k
    if S.choice('square', [False, True]):
        a = (S.choice('x', [1, 6, 15, 35, 1001, n // 3]) + S.conc(S.int('t', -3, 3)))**2
    else:
        a = S.conc(S.int('a', -20, 60))
    roots_of(S, z.sqrts_mod_n(a, n), a, f, 'sqrts_mod_n')
    if n % 2:
        j = 1
        for p, k in f:
            j *= (0 if a % p == 0 else 1 if pow(a, (p - 1) // 2, p) == 1 else -1)**k
        S.check(c.jacobi_symbol(a, n) == j, 'jacobi_symbol at a large modulus')


@harness('N04')
def refused(S):
    z = S.mod('rosemary.number_theory.zn_arithmetic')
    S.raises(ValueError, z.sqrts_mod_p, S.int('a', -3, 3), S.int('p', -3, 1), label='sqrts_mod_p: modulus below two')
