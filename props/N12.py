"""Arithmetic functions of one integer, factorial and primorial."""
from math import gcd
import math
from symx.run import harness, META, windows
from symx.oracle import *

META['N12'] = dict(bounds='n any value in the listed windows, k in 0..4; given as an integer and as a '
                          'factorization with exponents up to the stated bound; listed numbers up to 10**30')
F = 'rosemary.number_theory.arithmetic_functions.functions'
D = 'rosemary.number_theory.factorization.factorization'


def phi(n):
    r = n
    for p in prime_factors(n):
        r -= r // p
    return r


def mu(n):
    f = factor_c(n)
    return 0 if any(e > 1 for p, e in f) else (-1)**len(f)


def sigma(n, k):
    return sum(d**k for d in range(1, n + 1) if n % d == 0)


def lam(n):
    r = 1
    for p, e in factor_c(n):
        t = p**(e - 1) * (p - 1) if p > 2 else (2**(e - 1) if e <= 2 else 2**(e - 2))
        r = r * t // gcd(r, t)
    return r


def exponent(n):
    """The exponent of the unit group by definition."""
    r = 1
    for a in range(1, n):
        if gcd(a, n) == 1:
            k, x = 1, a % n
            while x != 1 % n:
                x, k = x * a % n, k + 1
            r = r * k // gcd(r, k)
    return r


def near(xs, r, **kw):
    return [dict(kw, lo=a - r, hi=a + r) for a in xs]


W = windows(1, 320, 20) + near((360, 512, 720, 729, 1024, 1331, 2048, 2187, 2310, 4096, 5040, 6561, 9973), 2)


@harness('N12', quick=W, thorough=windows(1, 3000, 60) + near((4096, 6561, 15625, 30030, 2**15, 3**10, 7**5, 99**2), 6))
def functions(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    k = S.choice('k', [0, 1, 2, 3])
    if k == 0:
        r = [m.euler_phi(n), m.moebius_mu(n), m.divisor_tau(n), m.carmichael_lambda(n), m.divisor_sigma(n),
             m.number_of_divisors(n), m.sum_of_divisors(n)]
    s = m.divisor_sigma(n, k)
    v = S.conc(n)
    S.observe(v, s)
    S.check(S.conc(s) == sigma(v, k), 'divisor_sigma')
    if k == 0:
        names = ('euler_phi', 'moebius_mu', 'divisor_tau', 'carmichael_lambda', 'divisor_sigma',
                 'number_of_divisors', 'sum_of_divisors')
        for f, x, w in zip(names, r, (phi(v), mu(v), sigma(v, 0), lam(v), sigma(v, 1), sigma(v, 0), sigma(v, 1))):
            S.check(S.conc(x) == w, f)


@harness('N12', quick=windows(1, 90, 30), thorough=windows(1, 400, 50))
def carmichael_definition(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    r = m.carmichael_lambda(n)
    S.observe(r)
    v = S.conc(n)
    S.check(S.conc(r) == exponent(v), 'carmichael_lambda is not the exponent of the unit group')


@harness('N12', quick=[dict(ps=ps, E=3, k=k) for ps in ((2,), (3,), (2, 3), (2, 5, 7), (3, 11)) for k in (0, 1, 2)],
         thorough=[dict(ps=ps, E=6, k=k) for ps in ((2,), (3,), (2, 3), (2, 5, 7), (3, 11), (2, 3, 5)) for k in (0, 1, 2, 3)])
def from_factorization(S, ps, E, k):
    """Factorizations with symbolic exponents."""
    m = S.mod(F)
    es = S.ints('e', len(ps), 1, E)
    f = [(p, e) for p, e in zip(ps, es)]
    keep = list(f)
    r = [m.euler_phi(f), m.divisor_tau(f), m.moebius_mu(f), m.carmichael_lambda(f), m.divisor_sigma(f, k)]
    S.observe(r)
    S.check(r[1] == prod_f(e + 1 for e in es), 'divisor_tau of a factorization')
    S.check(r[2] == ite(all_f(e == 1 for e in es), (-1)**len(ps), 0), 'moebius_mu of a factorization')
    g = [(p, S.conc(e)) for p, e in zip(ps, es)]
    w = 1
    for p, e in g:
        w *= p**(e - 1) * (p - 1)
    S.check(S.conc(r[0]) == w, 'euler_phi of a factorization')
    w = 1
    for p, e in g:
        w *= sum(p**(k * i) for i in range(e + 1))
    S.check(S.conc(r[4]) == w, 'divisor_sigma of a factorization')
    S.check(S.conc(r[3]) == lam(math.prod(p**e for p, e in g)), 'carmichael_lambda of a factorization')
    S.check([S.conc(e) for p, e in f] == [e for p, e in g] and len(f) == len(keep), 'the factorization was modified')


@harness('N12', quick=[dict(e=e, q=q, B=40) for e in (1, 2, 3) for q in (None, 2, 3)],
         thorough=[dict(e=e, q=q, B=200) for e in (1, 2, 3, 4) for q in (None, 2, 3, 5, 7)])
def symbolic_prime(S, e, q, B):
    """Factorizations p^e (times q) with a symbolic p."""
    m = S.mod(F)
    p = S.int('p', (q or 1) + 1, B)
    f = ([(q, 1)] if q else []) + [(p, e)]
    S.check(m.euler_phi(f) == p**(e - 1) * (p - 1) * ((q or 2) - 1), 'euler_phi formula')
    S.check(m.divisor_tau(f) == (e + 1) * (2 if q else 1), 'divisor_tau formula')
    S.check(m.divisor_sigma(f) == sum_f(p**i for i in range(e + 1)) * ((q or 0) + 1), 'divisor_sigma formula')


@harness('N12')
def factorization_of_one(S):
    m, d = S.mod(F), S.mod(D)
    f = d.factor(1)
    for g in (m.euler_phi, m.moebius_mu, m.divisor_sigma, m.divisor_tau, m.carmichael_lambda):
        S.check(g(f) == 1, 'value at the factorization of 1')


@harness('N12', quick=[{}])
def domain(S):
    m = S.mod(F)
    n = S.int('n', None, 0)
    for g in (m.euler_phi, m.moebius_mu, m.divisor_sigma, m.divisor_tau, m.carmichael_lambda, m.primorial):
        S.raises(ValueError, g, n)
    S.raises(ValueError, m.factorial, n - 1)
    k = S.int('k', None, -1)
    S.raises(ValueError, m.divisor_sigma, 6, k)


@harness('N12', quick=windows(0, 160, 40) + near((255, 512, 1000), 2), thorough=windows(0, 1000, 100) + near((2047, 4096), 3))
def factorial(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    v = S.conc(n)
    r = m.factorial(v)
    S.observe(v)
    S.check(S.conc(r) == math.factorial(v), 'factorial')


@harness('N12', quick=windows(1, 80, 40), thorough=windows(1, 400, 100))
def primorial(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    r = m.primorial(n)
    v = S.conc(n)
    ps = small_primes(3000)
    S.check(S.conc(r) == math.prod(ps[:v]), 'primorial')


FACTORED = ([(2, 60)], [(2, 12), (5, 12)], [(2, 4), (3, 2), (5, 1), (7, 1), (11, 1), (13, 1)], [(3, 30)], [(1000003, 2)], [(999983, 1), (1000003, 1)], [(7, 1), (2**31 - 1, 1)],
            [(2, 3), (3, 3), (5, 3), (7, 3), (11, 3)], [(2, 1), (3, 1), (5, 1), (7, 1), (11, 1), (13, 1), (17, 1), (19, 1), (23, 1), (29, 1)], [(2, 30), (3, 20)], [(97, 5)],
            [(2, 1), (10**9 + 7, 1)], [(101, 2), (103, 2), (107, 1)])


@harness('N12', conc_div=True, random='seeded', t=100, quick=[dict(i=i) for i in range(len(FACTORED))], thorough=[dict(i=i) for i in range(len(FACTORED))])
def large(S, i):
    """Large numbers, given as integers and as factorizations, against the product formulas."""
    m = S.mod(F)
    f = FACTORED[i]
    k = S.conc(S.int('k', 0, 6))
    n = math.prod(p**e for p, e in f)
    l = 1
    for p, e in f:
        t = p**(e - 1) * (p - 1) if p > 2 else (2**(e - 1) if e <= 2 else 2**(e - 2))
        l = l * t // gcd(l, t)
    s = [math.prod(sum(p**(j * i) for i in range(e + 1)) for p, e in f) for j in range(7)]
    want = dict(euler_phi=math.prod(p**(e - 1) * (p - 1) for p, e in f), moebius_mu=0 if any(e > 1 for p, e in f) else (-1)**len(f),
                divisor_tau=s[0], carmichael_lambda=l, number_of_divisors=s[0], sum_of_divisors=s[1])
    for x in (n, list(f)):
        S.check(m.divisor_sigma(x, k) == s[k], 'divisor_sigma')
        if k == 0:
            for g, w in want.items():
                S.check(getattr(m, g)(x) == w, g)
