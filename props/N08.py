"""Divisor lists."""
from symx.run import harness, META, windows
from symx.oracle import *
from math import gcd

META['N08'] = dict(bounds='n any value in the listed windows')
F = 'rosemary.number_theory.factorization.factorization'


def divs(n):
    return [d for d in range(1, n + 1) if n % d == 0]


W = windows(1, 240, 20) + [dict(lo=a - 2, hi=a + 2) for a in (360, 720, 1024, 961, 1260, 1331)]
TW = windows(1, 3000, 75)


@harness('N08', quick=W, thorough=TW)
def divisors_all(S, lo, hi):
    """The code runs on a symbolic n; the divisor is a symbolic witness."""
    m = S.mod(F)
    n = S.int('n', lo, hi)
    L = m.divisors(n)
    S.observe(L)
    d = S.int('d', 1, hi)
    S.check(biff(member(d, L), n % d == 0), 'divisors: wrong set')
    S.check(increasing(L), 'divisors: not sorted')
    X = list(m.xdivisors(n))
    S.check(biff(member(d, X), n % d == 0), 'xdivisors: wrong set')
    S.check(distinct(X), 'xdivisors: repeated')
    P = m.prime_divisors(n)
    S.check(increasing(P), 'prime_divisors: not sorted')
    S.check(biff(member(d, P), band(n % d == 0, is_prime_f(d))), 'prime_divisors')


@harness('N08', quick=W, thorough=TW)
def unitary_and_pairs(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    U = m.unitary_divisors(n)
    Q = m.divisor_pairs(n)
    S.observe(U, Q)
    v = S.conc(n)
    S.check([S.conc(x) for x in U] == [d for d in divs(v) if gcd(d, v // d) == 1], 'unitary_divisors')
    S.check([(S.conc(a), S.conc(b)) for a, b in Q] == [(d, v // d) for d in divs(v) if d * d <= v],
            'divisor_pairs')


@harness('N08', quick=windows(1, 120, 24), thorough=windows(1, 800, 50))
def from_factorization(S, lo, hi):
    m = S.mod(F)
    n = S.conc(S.int('n', lo, hi))
    f = factor_c(n)
    neg = S.choice('neg', [False, True])
    g = [(-1, 1)] + f if neg else list(f)
    keep = list(g)
    D = divs(n)
    S.check(m.divisors(factorization=g) == D, 'divisors(factorization)')
    S.check(sorted(m.xdivisors(factorization=g)) == D, 'xdivisors(factorization)')
    S.check(m.prime_divisors(factorization=g) == prime_factors(n), 'prime_divisors(factorization)')
    S.check(m.unitary_divisors(factorization=g) == [d for d in D if gcd(d, n // d) == 1],
            'unitary_divisors(factorization)')
    S.check(m.divisor_pairs(factorization=g) == [(d, n // d) for d in D if d * d <= n],
            'divisor_pairs(factorization)')
    S.check(g == keep, 'the factorization was modified')
    S.check(m.factor_back(g) == (-n if neg else n), 'factor_back')


@harness('N08', quick=windows(1, 60, 20), thorough=windows(1, 400, 50))
def negative(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    L = m.divisors(-n)
    d = S.int('d', 1, hi)
    S.check(biff(member(d, L), n % d == 0), 'divisors of a negative')
    P = m.prime_divisors(-n)
    S.check(biff(member(d, P), band(n % d == 0, is_prime_f(d))), 'prime_divisors of a negative')


@harness('N08')
def no_argument(S):
    m = S.mod(F)
    for f in (m.divisors, m.prime_divisors, m.unitary_divisors, m.divisor_pairs):
        S.raises(TypeError, f)


BIGN = (2310, 2**13, 3**8, 5040, 10080, 30030, 2 * 30030, 510510, 2**6 * 3**4 * 5**2 * 7, 720720, 2**20, 3 * 2**18, 6469693230, 10**12, 2**40, 99991**2, 99989 * 99991, 2**4 * 1009 * 10007)


@harness('N08', quick=[dict(n=n) for n in BIGN], thorough=[dict(n=n) for n in BIGN + (200560490130, 10**18, 2**64, 6**20, 30030**2)])
def many_factors(S, n):
    """Numbers with many prime factors or high powers, also given by their factorization."""
    m = S.mod(F)
    f = factor_c(n)
    D = [1]
    for p, e in f:
        D = [d * p**i for d in D for i in range(e + 1)]
    D.sort()
    kw = dict(factorization=list(f)) if S.choice('given', [False, True]) else dict(n=n)
    S.check(m.divisors(**kw) == D, 'divisors')
    S.check(sorted(m.xdivisors(**kw)) == D, 'xdivisors')
    S.check(m.prime_divisors(**kw) == [p for p, e in f], 'prime_divisors')
    S.check(m.unitary_divisors(**kw) == [d for d in D if gcd(d, n // d) == 1], 'unitary_divisors')
    S.check([tuple(x) for x in m.divisor_pairs(**kw)] == [(d, n // d) for d in D if d * d <= n], 'divisor_pairs')
