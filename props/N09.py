"""Primality tests and next primes."""
from symx.run import harness, META, windows
from symx.oracle import *

META['N09'] = dict(
    bounds='n any value in the listed windows (small n, windows around the end of the prime table at '
           '10^6 and beyond it); the base of a witness test is any integer in [0, n]; Mersenne exponents '
           'up to the listed prime; for random_prime every outcome of the first 3 draws',
    assumptions=['is_probable_prime is compared with primality for n below 10^24, where testing the '
                 'bases 2..41 is known to be exact (Sorenson and Webster)'])
P = 'rosemary.number_theory.primes.primality'


def prime(n):
    if n < 10**10:
        return n >= 2 and all(n % d for d in range(2, isqrt(n) + 1))
    # the first 13 primes as bases are exact below 3.3e24 (Sorenson, Webster)
    return all(n % p and strong(n, p) for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41))


def near(xs, r, **kw):
    return [dict(kw, lo=a - r, hi=a + r) for a in xs]


MID = (25326, 121**2, 1009 * 31, 50021, 65537, 99991, 314161, 997**2, 524287, 899999, 999961, 999983)
BIG = (1000003, 1009**2, 1021 * 1019, 1373653, 1530787, 9999991, 25326001)
MERS = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 89, 107, 127]
IS_MERS = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607}


@harness('N09', quick=windows(-40, 1400, 120) + near(MID, 14),
         thorough=windows(-400, 20000, 400) + near(MID, 60))
def is_prime(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    r = m.is_prime(n)
    S.observe(r)
    S.check(biff(r, is_prime_f(n)), 'is_prime')


@harness('N09', conc_div=True, quick=near(BIG, 6), thorough=near(BIG + (2047 * 3001, 3215031, 10**7), 25))
def is_prime_beyond_table(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    r = m.is_prime(n)
    v = S.conc(n)
    S.observe(r, v)
    S.check(S.conc(r) == prime(v), 'is_prime beyond the prime table')


# least strong pseudoprimes to the first bases, and products of three primes
PSP = (1105, 1387, 2047, 4033, 6601, 8321, 29341, 46657, 65281, 10**6 + 3, 1373653, 1530787, 3215031751, 1018081, 25326001, 118670087467,
       2152302898747, 3474749660383)


@harness('N09', conc_div=True, quick=windows(2, 420, 60) + near(PSP, 2),
         thorough=windows(2, 6000, 200) + near(PSP + (52633, 90751), 6))
def probable_prime(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    r = m.is_probable_prime(n)
    d = m.miller_rabin_deterministic(n)
    v = S.conc(n)
    S.observe(r, d, v)
    S.check(S.conc(r) == prime(v), 'is_probable_prime')
    S.check(S.conc(d) == prime(v), 'miller_rabin_deterministic')


@harness('N09', conc_div=True, quick=near((10**15, 10**18, 2**61, 2**62, 2**64), 60) + near((341550071728321, 3825123056546413051, 1000003 * 1000033), 1),
         thorough=near((10**15, 10**18, 10**20, 2**53, 2**61, 2**62, 2**64, 2**80), 200) + near((341550071728321, 3825123056546413051, 1000003 * 1000033), 6))
def large_numbers(S, lo, hi):
    """Never rejects a prime; the windows include the least strong pseudoprimes to the prime bases up to 19 and up to 31."""
    m = S.mod(P)
    n = S.int('n', lo, hi)
    S.assume(n % 2 == 1)
    v = S.conc(n)
    S.check(S.conc(m.is_probable_prime(v)) == prime(v), 'is_probable_prime of a large number')
    S.check(S.conc(m.miller_rabin_deterministic(v)) == prime(v), 'miller_rabin_deterministic of a large number')


def odds(a, b, k):
    xs = [n for n in range(a, b, 2)]
    return [dict(ns=xs[i::k]) for i in range(k)]


def strong(n, a):
    s, t = 0, n - 1
    while t % 2 == 0:
        s, t = s + 1, t // 2
    return pow(a, t, n) == 1 or any(pow(a, t << i, n) == n - 1 for i in range(s))


def jac(a, n):
    r = 1
    for p in prime_factors(n):
        k, q = 0, n
        while q % p == 0:
            q, k = q // p, k + 1
        l = 0 if a % p == 0 else (1 if pow(a, (p - 1) // 2, p) == 1 else -1)
        r *= l**k
    return r


@harness('N09', conc_div=True, quick=odds(3, 110, 8), thorough=odds(3, 400, 24))
def witnesses(S, ns):
    """The two witness tests against their definitions, for every base."""
    m = S.mod(P)
    n = S.choice('n', ns)
    a = S.int('a', 0, n)
    r, q = m.miller_rabin(n, a), m.solovay_strassen(n, a)
    v = S.conc(a)
    S.observe(r, q, v)
    S.check(S.conc(r) == strong(n, v), 'miller_rabin')
    S.check(S.conc(q) == (jac(v, n) != 0 and jac(v, n) % n == pow(v, (n - 1) // 2, n)), 'solovay_strassen')


@harness('N09', conc_div=True, random='nondet', max_rand=2, quick=odds(5, 40, 6), thorough=odds(5, 120, 12))
def random_witness_never_rejects_a_prime(S, ns):
    m = S.mod(P)
    n = S.choice('n', ns)
    r, q = m.miller_rabin(n), m.solovay_strassen(n)
    S.check(bor(not prime(n), r), 'miller_rabin rejects a prime')
    S.check(bor(not prime(n), q), 'solovay_strassen rejects a prime')


NP = (113, 523, 887, 1327, 9551, 15683, 31397, 155921, 360653, 492113, 999979)


@harness('N09', t=100, quick=windows(-20, 260, 35) + near(NP, 3) + near((999983, 1000003), 2),
         thorough=windows(-50, 4000, 120) + near(NP, 12) + near((999983, 1000003, 1018081), 6), conc_div=True)
def next_prime(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    r, q = m.next_prime(n), m.next_probable_prime(n)
    v = S.conc(n)
    w = max(v, 1) + 1
    while not prime(w):
        w += 1
    S.observe(r, q, v)
    S.check(r == w, 'next_prime')
    S.check(q == w, 'next_probable_prime')


@harness('N09', quick=[dict(ps=MERS[i::4]) for i in range(4)], thorough=[dict(ps=(MERS + [131, 137, 257, 521, 523, 607])[i::6]) for i in range(6)])
def mersenne(S, ps):
    m = S.mod(P)
    p = S.choice('p', ps)
    S.check(S.conc(m.lucas_lehmer(p)) == (p in IS_MERS), 'lucas_lehmer')


@harness('N09', random='nondet', max_rand=3, quick=[dict(A=a, B=a + 14) for a in (2, 14, 90, 999970)],
         thorough=[dict(A=a, B=a + 20) for a in (2, 20, 90, 500, 999970)])
def random_prime(S, A, B):
    m = S.mod(P)
    a, b = S.int('a', A, B), S.int('b', A, B)
    S.assume(a <= b)
    p = m.random_prime(a, b)
    S.check(all_f([p >= a, p <= b, is_prime_f(p)]), 'random_prime')
