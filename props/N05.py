"""Linear and quadratic congruences, roots of unity and of minus one."""
from math import gcd

from symx.run import harness, META, windows
from symx.oracle import *

META['N05'] = dict(bounds='moduli in the listed windows; the constant term (and the linear coefficient '
                          'of the linear congruence) any integer')
Z = 'rosemary.number_theory.zn_arithmetic'


def solset(S, r, n, ok, what):
    S.observe(r)
    S.check(increasing(r), what + ': not sorted and distinct')
    S.check(all_f(band(0 <= x, x < n) for x in r), what + ': out of range')
    S.check(all_f(biff(member(x, r), ok(x)) for x in range(n)), what + ': wrong solution set')


@harness('N05', conc_div=True, quick=windows(2, 13, 1), thorough=windows(2, 40, 1))
def linear(S, lo, hi):
    z = S.mod(Z)
    n = S.conc(S.int('n', lo, hi))
    a = S.conc(S.int('a', -n, 2 * n))
    b = S.int('b')
    r = z.linear_congruence(a, b, n)
    v = S.conc(b % n)
    S.observe(r)
    S.check([S.conc(x) for x in r] == [x for x in range(n) if (a * x - v) % n == 0], 'linear_congruence')


@harness('N05', conc_div=True, quick=[dict(n=n) for n in (6, 9, 13)], thorough=[dict(n=n) for n in range(2, 30)])
def linear_any(S, n):
    z = S.mod(Z)
    a = S.int('a')
    b = S.conc(S.int('b', -n, n))
    r = z.linear_congruence(a, b, n)
    v = S.conc(a % n)
    S.observe(r)
    S.check([S.conc(x) for x in r] == [x for x in range(n) if (v * x - b) % n == 0], 'linear_congruence')


@harness('N05')
def linear_domain(S):
    z = S.mod(Z)
    n = S.int('n', -5, 1)
    S.raises(ValueError, z.linear_congruence, S.int('a', -3, 3), S.int('b', -3, 3), n)


@harness('N05', conc_div=True, max_rand=3, quick=[dict(n=n) for n in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16)],
         thorough=[dict(n=n) for n in range(2, 37)])
def quadratic(S, n):
    z = S.mod(Z)
    T = 3 if n > 9 else 4
    a, b = S.conc(S.int('a', -2, T)), S.conc(S.int('b', -2, T))
    S.assume(a != 0)
    c = S.int('c', -3 * n, 3 * n)
    r = z.quadratic_congruence([a, b, c], n)
    v = S.conc(c % n)
    S.observe(r)
    S.check([S.conc(x) for x in r] == [x for x in range(n) if (a * x * x + b * x + v) % n == 0],
            'quadratic_congruence')


def primes_split(top, n):
    ps = small_primes(top)
    return [dict(ps=ps[i::n]) for i in range(n)]


@harness('N05', conc_div=True, quick=primes_split(31, 6), thorough=primes_split(90, 12))
def roots_of_one(S, ps):
    z = S.mod(Z)
    p = S.choice('p', ps)
    n = S.int('n', 1, None)
    r = z.nth_roots_of_unity_mod_p(n, p)
    e = n % (p - 1) if p > 2 else 0
    solset(S, r, p, lambda x: table(e, lambda k: x and pow(x, k, p) == 1) if x else False, 'roots of unity')


@harness('N05', conc_div=True, quick=primes_split(31, 6), thorough=primes_split(90, 12))
def roots_of_minus_one(S, ps):
    z = S.mod(Z)
    p = S.choice('p', ps)
    n = S.int('n', 1, None)
    r = z.nth_roots_of_minus1_mod_p(n, p)
    e = n % (p - 1) if p > 2 else 0
    solset(S, r, p, lambda x: table(e, lambda k: pow(x, k, p) == p - 1) if x else False, 'roots of -1')


@harness('N05', conc_div=True, quick=[dict(ps=[7, 13, 19])], thorough=[dict(ps=[7, 13, 19, 31, 37, 41])])
def any_generator(S, ps):
    """The answer does not depend on which primitive root is supplied."""
    z = S.mod(Z)
    p = S.choice('p', ps)
    g = S.conc(S.int('g', 2, p - 1))
    S.assume(len({pow(g, i, p) for i in range(p)}) == p - 1)
    n = S.conc(S.int('n', 1, p + 2))
    r = z.nth_roots_of_unity_mod_p(n, p, g)
    solset(S, r, p, lambda x: x and pow(x, n, p) == 1, 'roots of unity')
    r = z.nth_roots_of_minus1_mod_p(n, p, g)
    solset(S, r, p, lambda x: pow(x, n, p) == p - 1, 'roots of -1')


@harness('N05', conc_div=True, quick=[dict(n=n) for n in (10**6, 2**40, 10**18 + 9, 720720 * 10**9, (10**9 + 7) * (10**9 + 9))],
         thorough=[dict(n=n) for n in (10**6, 2**40, 2**64, 10**18 + 9, 720720 * 10**9, 3**50, (10**9 + 7) * (10**9 + 9))])
def linear_large(S, n):
    z = S.mod(Z)
    a = S.choice('a', [1, 6, 10, 77, n // 2 + 1, n - 12, -35, 2**60, 3 * n + 4, 360]) + S.conc(S.int('s', -2, 2))
    b = S.choice('b', [0, 1, 60, n - 6, -44, 10**20, n // 3]) + S.conc(S.int('t', -2, 2))
    d = gcd(a, n)
    S.assume(d < 1000)
    r = z.linear_congruence(a, b, n)
    S.check(len(r) == (d if b % d == 0 else 0), 'linear_congruence: number of solutions')
    S.check(all(0 <= x < n and (a * x - b) % n == 0 for x in r) and all(x < y for x, y in zip(r, r[1:])), 'linear_congruence: solutions')


@harness('N05', conc_div=True, random='seeded', quick=[dict(n=n) for n in (49, 64, 81, 96, 101, 120, 125, 128, 210, 257, 288, 343)], thorough=[dict(n=n) for n in (49, 64, 81, 96, 101, 120, 125, 128, 169, 210, 256, 257, 288, 343, 360, 500, 625, 729, 1024, 1155)])
def quadratic_larger(S, n):
    """Larger moduli with listed leading coefficients, which share factors with n or not."""
    z = S.mod(Z)
    a = S.choice('a', [1, 2, 3, 4, 5, 6, 7, 12, -8, n - 1])
    b = S.choice('b', [0, 1, 6, -5, 14])
    c = S.conc(S.int('c', -4, 6)) * S.choice('s', [1, 7])
    r = z.quadratic_congruence([a, b, c], n)
    S.check(list(r) == [x for x in range(n) if (a * x * x + b * x + c) % n == 0], 'quadratic_congruence')


@harness('N05', conc_div=True, random='seeded', quick=[dict(p=p) for p in (97, 193, 257, 601, 769)], thorough=[dict(p=p) for p in (97, 193, 257, 601, 769, 7681, 12289)])
def unity_larger(S, p):
    z = S.mod(Z)
    n = S.choice('n', [1, 2, 3, 4, 6, 8, 10, 12, 16, 24, 64, 96, p - 1, 2 * p, p + 3, (p - 1) // 2])
    S.check(list(z.nth_roots_of_unity_mod_p(n, p)) == [x for x in range(1, p) if pow(x, n, p) == 1], 'roots of unity')
    S.check(list(z.nth_roots_of_minus1_mod_p(n, p)) == [x for x in range(1, p) if pow(x, n, p) == p - 1], 'roots of -1')
