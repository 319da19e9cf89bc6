"""gcd, extended gcd, lcm, list forms, modular inverse."""
from math import gcd

from symx.run import harness, META, windows
from symx.oracle import *

META['N01'] = dict(bounds='gcd/ext_gcd/lcm: both arguments any value in a signed window of the '
                          'stated width; lists up to 4 entries; inverse_mod: every residue and '
                          'modulus in the window')
C = 'rosemary.number_theory.core'


@harness('N01', quick=[dict(B=24)], thorough=[dict(B=40)])
def gcd_both(S, B):
    c = S.mod(C)
    x, y = S.int('x', -B, B), S.int('y', -B, B)
    g = c.gcd(x, y)
    S.observe(g)
    S.check(gcd_is(g, [x, y], B), 'gcd is not the greatest common divisor')
    S.check(c.gcd(y, x) == g, 'gcd is not symmetric')


@harness('N01', quick=[dict(B=10)], thorough=[dict(B=14)])
def ext_gcd_both(S, B):
    c = S.mod(C)
    x, y = S.int('x', -B, B), S.int('y', -B, B)
    a, b, d = c.ext_gcd(x, y)
    S.observe(a, b, d)
    S.check(a * x + b * y == d, 'Bezout identity fails')
    S.check(gcd_is(d, [x, y], B), 'ext_gcd: d is not the gcd')


@harness('N01', quick=windows(-20, 20, 4), thorough=windows(-120, 120, 8), conc_div=True)
def one_any(S, lo, hi):
    """One argument is any integer at all, the other any value in a window."""
    c = S.mod(C)
    x, y = S.int('x'), S.conc(S.int('y', lo, hi))
    if y == 0:
        S.check(c.gcd(x, y) == abs(x), 'gcd(x, 0)')
        S.check(c.gcd(y, x) == abs(x), 'gcd(0, x)')
        a, b, d = c.ext_gcd(x, y)
        S.check(band(d == abs(x), bor(x == 0, bor(band(a == 1, d == x), band(a == -1, d == -x)))),
                'ext_gcd(x, 0)')
        S.check(c.lcm(x, y) == 0, 'lcm(x, 0)')
        return
    g = c.gcd(x, y)
    S.observe(g)
    S.check(gcd_is(g, [x, y], abs(y)), 'gcd')
    S.check(c.gcd(y, x) == g, 'gcd symmetric')
    S.check(c.lcm(x, y) * g == abs(x * y), 'gcd * lcm')
    a, b, d = c.ext_gcd(x, y)
    S.observe(a, b, d)
    S.check(d == g, 'ext_gcd differs from gcd')
    S.check(a * x + b * y == d, 'Bezout identity')
    b, a, d = c.ext_gcd(y, x)
    S.observe(a, b, d)
    S.check(d == g, 'ext_gcd differs from gcd')
    S.check(a * x + b * y == d, 'Bezout identity')


@harness('N01', quick=[dict(B=12)], thorough=[dict(B=20)])
def lcm_def(S, B):
    c = S.mod(C)
    x, y = S.int('x', -B, B), S.int('y', -B, B)
    m = c.lcm(x, y)
    S.observe(m)
    S.check(m >= 0, 'lcm negative')
    S.check(biff(m == 0, bor(x == 0, y == 0)), 'lcm zero')
    z = S.int('z', 1, B * B)
    S.check(implies(band(x != 0, y != 0), band(m % ite(x == 0, 1, x) == 0, m % ite(y == 0, 1, y) == 0)),
            'lcm is not a common multiple')
    S.check(implies(band(x != 0, y != 0, z % ite(x == 0, 1, x) == 0, z % ite(y == 0, 1, y) == 0), m <= z),
            'lcm is not least')
    g = c.gcd(x, y)
    S.check(implies(m != 0, g * m == abs(x * y)), 'gcd * lcm != |x y|')


@harness('N01', quick=[dict(k=1, B=30), dict(k=2, B=20), dict(k=3, B=12)],
         thorough=[dict(k=1, B=200), dict(k=2, B=40), dict(k=3, B=20), dict(k=4, B=10)])
def lists(S, k, B):
    c = S.mod(C)
    xs = S.ints('x', k, -B, B)
    g = c.gcd_list(list(xs))
    S.observe(g)
    S.check(gcd_is(g, xs, B), 'gcd_list')


@harness('N01', quick=[dict(k=1, B=30), dict(k=2, B=8), dict(k=3, B=5)],
         thorough=[dict(k=1, B=200), dict(k=2, B=15), dict(k=3, B=7), dict(k=4, B=4)])
def lcm_lists(S, k, B):
    c = S.mod(C)
    xs = S.ints('x', k, -B, B)
    m = c.lcm_list(list(xs))
    S.observe(m)
    S.check(m >= 0, 'lcm_list negative')
    z = S.int('z', 1, B ** k)
    nz = all_f(x != 0 for x in xs)
    S.check(biff(m == 0, bnot(nz)), 'lcm_list zero')
    ys = [ite(x == 0, 1, x) for x in xs]
    S.check(implies(nz, all_f(m % y == 0 for y in ys)), 'lcm_list: common multiple')
    S.check(implies(band(nz, all_f(z % y == 0 for y in ys)), m <= z), 'lcm_list: least')


@harness('N01', quick=windows(2, 29, 4), thorough=windows(2, 150, 5), conc_div=True)
def inverse(S, lo, hi):
    c = S.mod(C)
    a, m = S.int('a'), S.conc(S.int('m', lo, hi))
    cop = coprime_f(a, m)
    try:
        r = c.inverse_mod(a, m)
    except ValueError:
        S.check(bnot(cop), 'inverse_mod rejects a unit')
        S.reach('rejected')
        return
    S.observe(r)
    S.check(cop, 'inverse_mod accepts a non-unit')
    S.check(band(0 <= r, r < m, (a * r) % m == 1), 'inverse_mod: not the inverse')


@harness('N01')
def inverse_bad_modulus(S):
    c = S.mod(C)
    a, m = S.int('a', -20, 20), S.int('m', -20, 1)
    S.raises(ValueError, c.inverse_mod, a, m)


BIGP = [(2**61 - 1) * 6, 10**18, 3**40 * 10, (10**9 + 7) * (10**9 + 9), 2**64, 720720**3, 95 * 2**53, 600851475143 * 71, 1]


@harness('N01', conc_div=True, quick=[dict(i=i, j=j) for i in range(9) for j in range(i, 9, 2)], thorough=[dict(i=i, j=j) for i in range(9) for j in range(9)])
def large(S, i, j):
    """Values beyond 2**53, where a detour through floats goes wrong."""
    c = S.mod(C)
    x, y = BIGP[i] + S.conc(S.int('x', -1, 1)), BIGP[j] * S.choice('s', [1, -1]) + S.conc(S.int('y', -1, 1))
    g = gcd(x, y)
    S.check(c.gcd(x, y) == g, 'gcd')
    u, v, d = c.ext_gcd(x, y)
    S.check(d == g and u * x + v * y == g, 'ext_gcd')
    S.check(c.lcm(x, y) == (abs(x * y) // g if g else 0), 'lcm')
    if y > 1 and g == 1:
        r = c.inverse_mod(x, y)
        S.check(0 <= r < y and r * x % y == 1, 'inverse_mod')


@harness('N01', conc_div=True, quick=[dict(k=k, at=at) for k in (5, 7, 9) for at in (2, k - 1)], thorough=[dict(k=k, at=at) for k in range(4, 14) for at in range(k)])
def long_lists(S, k, at):
    """Lists of many entries with one arbitrary entry."""
    c = S.mod(C)
    xs = [60 * (i + 1) * (-1)**i for i in range(k)]
    xs[at] = S.int('x', -130, 130)
    ys = list(xs)
    g, m = c.gcd_list(list(xs)), c.lcm_list(list(xs))
    S.observe(g, m)
    ys[at] = S.conc(xs[at])
    S.check(S.conc(g) == gcd(*ys), 'gcd_list of many')
    w = 1
    for y in ys:
        w = abs(w * y) // gcd(w, y) if y and w else 0
    S.check(S.conc(m) == w, 'lcm_list of many')
