"""Discrete logarithms, orders, primitive roots."""
from symx.run import harness, META, windows
from symx.oracle import *
from math import gcd

META['N06'] = dict(bounds='moduli in the listed windows, every residue; for orders and primitive roots '
                          'the base is any integer')
Z = 'rosemary.number_theory.zn_arithmetic'


def order(a, n):
    k, x = 1, a % n
    while x != 1 % n:
        x = x * a % n
        k += 1
    return k


def phi(n):
    return sum(1 for i in range(1, n + 1) if gcd(i, n) == 1)


def split(xs, n, name):
    xs = list(xs)
    return [{name: xs[i::n]} for i in range(n) if xs[i::n]]


@harness('N06', conc_div=True, quick=split(small_primes(43), 8, 'ps'), thorough=split(small_primes(130), 16, 'ps'))
def dlog(S, ps):
    z = S.mod(Z)
    p = S.choice('p', ps)
    a = S.conc(S.int('a', 1, p - 1))
    b = S.int('b', 1, p - 1)
    powers = sorted({pow(a, i, p) for i in range(p)})
    try:
        x = z.discrete_log(a, b, p)
    except ValueError:
        S.check(bnot(member(b, powers)), 'discrete_log misses a solution')
        S.reach('none')
        return
    S.observe(x)
    x = S.conc(x)
    S.check(x >= 0, 'negative logarithm')
    S.check(pow(a, x, p) == b % p, 'discrete_log: a**x != b')


@harness('N06', conc_div=True, quick=split(range(1, 33), 8, 'ns'), thorough=split(range(1, 90), 16, 'ns'))
def mult_order(S, ns):
    z = S.mod(Z)
    n = S.choice('n', ns)
    a = S.int('a')
    try:
        k = z.multiplicative_order(a, n)
    except ValueError:
        S.check(bnot(coprime_f(a, n)), 'order refuses a unit')
        return
    S.observe(k)
    S.check(coprime_f(a, n), 'order accepts a non-unit')
    S.check(k == table(a % n, lambda v: order(v, n) if gcd(v, n) == 1 else 0), 'multiplicative_order')


@harness('N06', conc_div=True, quick=split(range(2, 37), 8, 'ns'), thorough=split(range(2, 100), 16, 'ns'))
def is_primitive(S, ns):
    z = S.mod(Z)
    n = S.choice('n', ns)
    a = S.int('a')
    r = z.is_primitive_root(a, n)
    S.observe(r)
    f = phi(n)
    S.check(biff(r, table(a % n, lambda v: gcd(v, n) == 1 and order(v, n) == f)), 'is_primitive_root')


@harness('N06', quick=[dict(top=120)], thorough=[dict(top=400)])
def least_root(S, top):
    z = S.mod(Z)
    n = S.conc(S.int('n', 2, top))
    f = phi(n)
    has = [g for g in range(1, n) if gcd(g, n) == 1 and order(g, n) == f]
    if not has:
        S.raises(ValueError, z.primitive_root, n)
    else:
        g = z.primitive_root(n)
        S.observe(g)
        S.check(g == has[0], 'primitive_root is not the least one')
        S.check(z.primitive_root(n, n_factorization=factor_c(n), phi=f,
                                 phi_divisors=prime_factors(f)) == g, 'supplied data')


@harness('N06', conc_div=True, quick=split(small_primes(131), 8, 'ps'), thorough=split(small_primes(400), 16, 'ps'))
def fibonacci(S, ps):
    z = S.mod(Z)
    p = S.choice('p', ps)
    r = z.fibonacci_primitive_roots(p)
    S.observe(r)
    x = S.int('x', 0, p - 1)
    good = table(x, lambda v: v > 0 and (v * v - v - 1) % p == 0 and order(v, p) == p - 1 and p > 2)
    S.check(biff(member(x, r), good), 'fibonacci_primitive_roots')
    S.check(increasing(r), 'not sorted')


LP = (97, 101, 193, 257, 1009, 7681, 10007, 65537)


@harness('N06', conc_div=True, quick=[dict(p=p) for p in LP], thorough=[dict(p=p) for p in LP + (786433, 1000003, 998244353)])
def dlog_large(S, p):
    """Large primes: every power of the base is found, and only powers."""
    z = S.mod(Z)
    a = S.choice('a', [2, 3, 5, 7, 10, p - 1, p - 2, p // 2, 1])
    if S.choice('power', [True, False]):
        e = S.choice('e', [0, 1, p // 3, p // 2, p - 2, p - 1]) + S.conc(S.int('t', 0, 6))
        b = pow(a, e, p)
        x = z.discrete_log(a, b, p)
        S.check(x >= 0 and pow(a, x, p) == b, 'discrete_log: a**x != b')
    else:
        b = S.conc(S.int('b', 2, 30))
        k = ord_of(a, p)
        if pow(b, k, p) == 1:
            x = z.discrete_log(a, b, p)
            S.check(x >= 0 and pow(a, x, p) == b % p, 'discrete_log: a**x != b')
        else:
            S.raises(ValueError, z.discrete_log, a, b, p, label='discrete_log finds a logarithm of what is no power')


def ord_of(a, n):
    """The order of a unit from the factorization of phi."""
    f = 1
    for p, e in factor_c(n):
        f *= p**(e - 1) * (p - 1)
    k = f
    for q in prime_factors(f):
        while k % q == 0 and pow(a, k // q, n) == 1 % n:
            k //= q
    return k


def phi_c(n):
    f = 1
    for p, e in factor_c(n):
        f *= p**(e - 1) * (p - 1)
    return f


LN = (243, 256, 343, 500, 625, 720, 961, 1001, 1024, 2 * 3**7, 5040, 7681, 12289, 65537, 65536, 3**11, 2 * 101**2, 10**6)


@harness('N06', conc_div=True, quick=[dict(n=n) for n in LN], thorough=[dict(n=n) for n in LN + (2**31 - 1, 10**12, 99991 * 99989, 2 * 7**12)])
def orders_large(S, n):
    z = S.mod(Z)
    a = S.choice('base', [0, n // 2, n - 10]) + S.conc(S.int('a', 1, 24))
    S.assume(gcd(a, n) == 1)
    k = ord_of(a, n)
    S.check(z.multiplicative_order(a, n) == k, 'multiplicative_order of a large modulus')
    S.check(bool(z.is_primitive_root(a, n)) == (k == phi_c(n)), 'is_primitive_root of a large modulus')


RN = (343, 625, 961, 2 * 3**6, 3**9, 2 * 5**4, 7681, 12289, 40961, 65537, 110881, 191, 409, 760321, 5881, 2 * 191, 191**2, 29**2, 37**2, 4, 9, 2 * 29**3, 40487**2)


@harness('N06', conc_div=True, quick=[dict(n=n) for n in RN], thorough=[dict(n=n) for n in RN + (36721, 2161, 3361, 2**31 - 1, 6692367337)])
def least_root_large(S, n):
    """Moduli with a large least root, and prime powers where a root of the prime is none of the square (29, 37, 40487)."""
    z = S.mod(Z)
    g = z.primitive_root(n)
    S.check(g > 0 and gcd(g, n) == 1 and ord_of(g, n) == phi_c(n), 'primitive_root: not a primitive root')
    S.check(all(gcd(h, n) > 1 or ord_of(h, n) < phi_c(n) for h in range(1, g)), 'primitive_root: not the least')


@harness('N06', conc_div=True, random='seeded', quick=[dict(ps=[p]) for p in (1009, 1019, 1021, 1031, 1039, 1049, 1051, 1061, 1069, 7681, 12289, 10009, 65519)], thorough=[dict(ps=small_primes(4000)[i::16]) for i in range(16)])
def fibonacci_large(S, ps):
    z = S.mod(Z)
    p = S.choice('p', ps)
    r = list(z.fibonacci_primitive_roots(p))
    S.check(r == [x for x in range(2, p) if (x * x - x - 1) % p == 0 and ord_of(x, p) == p - 1], 'fibonacci_primitive_roots')


@harness('N06')
def refused(S):
    z = S.mod('rosemary.number_theory.zn_arithmetic')
    S.raises(ValueError, z.is_primitive_root, S.int('a', -3, 3), S.int('n', -3, 1), label='is_primitive_root: modulus below two')
