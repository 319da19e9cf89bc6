"""power_mod, integer logarithm, integer roots, valuation, bit count."""
from symx.run import harness, META, windows
from symx.oracle import *
from math import isqrt

META['N02'] = dict(bounds='power_mod: base in [0, 2^10), exponent <= 20, modulus in the window; '
                          'integer_log: every n up to 10^12 per base; roots: every value up to the '
                          'stated bound and windows around large powers; valuation: |n| <= 10^9',
                   assumptions=['x**0.5 for an integer 0 <= x < 2**52 is the correctly rounded root, '
                                'so its floor is isqrt(x)'])
C = 'rosemary.number_theory.core'


@harness('N02', quick=windows(1, 24, 3, K=12), thorough=windows(1, 60, 3, K=40))
def power(S, lo, hi, K):
    c = S.mod(C)
    m = S.conc(S.int('m', lo, hi))
    k = S.conc(S.int('k', 0, K))
    a = S.int('a', 0, 255)
    r = c.power_mod(a, k, m)
    S.observe(r)
    S.check(r == powmod_f(a, k, m), 'power_mod differs from a**k mod m')


@harness('N02', quick=windows(2, 9, 1, K=40), thorough=windows(2, 40, 1, K=200))
def power_exponent(S, lo, hi, K):
    """Every exponent up to K as a symbolic bit pattern, every residue."""
    c = S.mod(C)
    v = S.conc(S.int('v', 0, lo - 1))
    k = S.int('k', 0, K)
    r = c.power_mod(v, k, lo)
    S.observe(r)
    S.check(r == table(k, lambda e: pow(v, e, lo)), 'power_mod')


@harness('N02')
def power_domain(S):
    c = S.mod(C)
    a, k, m = S.int('a', -3, 5), S.int('k', -3, 5), S.int('m', -3, 5)
    if a < 0 or k < 0 or m < 1:
        S.raises(ValueError, c.power_mod, a, k, m)
    else:
        r = c.power_mod(a, k, m)
        S.check(band(0 <= r, r < m), 'range')


@harness('N02', quick=[dict(lo=2, hi=4), dict(lo=5, hi=9), dict(lo=10, hi=20)],
         thorough=windows(2, 60, 6))
def ilog(S, lo, hi):
    c = S.mod(C)
    b = S.conc(S.int('b', lo, hi))
    n = S.int('n', 1, 10**15 if b > 2 else 10**9, bv=False)
    r = S.conc(c.integer_log(b, n))
    S.observe(r)
    S.check(band(r >= 0, b**max(r, 0) <= n, n < b**(max(r, 0) + 1)), 'integer_log')


@harness('N02')
def ilog_domain(S):
    c = S.mod(C)
    b, n = S.int('b', -5, 6), S.int('n', -5, 6)
    if b <= 1 or n <= 0:
        S.raises(ValueError, c.integer_log, b, n)
    else:
        c.integer_log(b, n)
        S.check(True)


@harness('N02', conc_div=True, quick=windows(0, 1500, 250, n=2) + windows(0, 1600, 200, n=3) +
         windows(0, 1200, 300, n=4) + windows(0, 900, 300, n=5) + windows(0, 500, 500, n=7),
         thorough=[w for n in range(1, 10) for w in windows(0, 8000, 400, n=n)])
def nth_root(S, n, lo, hi):
    c = S.mod(C)
    m = S.int('m', lo, hi)
    r = c.integer_nth_root(n, m)
    S.observe(r)
    S.check(band(r >= 0, r**n <= m, m < (r + 1)**n), 'integer_nth_root')


@harness('N02', conc_div=True,
         quick=[dict(base=b, n=n) for b in (99, 1000, 65535, 10**6 + 3, 10**9 + 7) for n in (2, 3, 4, 5, 6)],
         thorough=[dict(base=b, n=n) for b in (63, 64, 99, 1000, 65535, 65536, 10**6 + 3, 10**9 + 7, 10**15 + 3, 2**61, 10**20)
                   for n in range(2, 11)])
def root_windows(S, base, n):
    """Values around large perfect powers, where rounding goes wrong."""
    c = S.mod(C)
    t = S.int('t', -6, 6)
    m = base**n + t
    r = c.integer_nth_root(n, m)
    S.observe(r)
    S.check(band(r**n <= m, m < (r + 1)**n), 'integer_nth_root near a power')
    if n == 2:
        r = c.integer_sqrt(m)
        S.observe(r)
        S.check(band(r * r <= m, m < (r + 1) * (r + 1)), 'integer_sqrt near a square')


@harness('N02', quick=[dict(hi=2**20), dict(hi=2**52 - 1)])
def isqrt_float(S, hi):
    c = S.mod(C)
    n = S.int('n', 0, hi, bv=False)
    r = c.integer_sqrt(n)
    S.observe(r)
    S.check(band(r >= 0, r * r <= n, n < (r + 1) * (r + 1)), 'integer_sqrt')


@harness('N02', conc_div=True,
         quick=[dict(b=2**e + d) for e in (26, 27, 28, 29, 30, 31, 40, 64) for d in (-1, 0, 1)],
         thorough=[dict(b=2**e + d) for e in range(24, 80) for d in (-1, 0, 1)])
def isqrt_windows(S, b):
    c = S.mod(C)
    n = b * b + S.int('t', -5, 5)
    r = c.integer_sqrt(n)
    S.observe(r)
    S.check(band(r * r <= n, n < (r + 1) * (r + 1)), 'integer_sqrt near a square')


@harness('N02')
def root_domain(S):
    c = S.mod(C)
    n, m = S.int('n', -3, 4), S.int('m', -4, 6)
    if m < 0 or n < 1:
        S.raises(ValueError, c.integer_nth_root, n, m)
        if m < 0:
            S.raises(ValueError, c.integer_sqrt, m)
    else:
        r = c.integer_nth_root(n, m)
        n = S.conc(n)
        S.check(band(r >= 0, r**n <= m, m < (r + 1)**n), 'small root')


@harness('N02', quick=[dict(p=p) for p in (2, 3, 5, 6, 10, -2, -3, 12)],
         thorough=[dict(p=p) for p in list(range(2, 20)) + [-2, -3, -4, -7, 30, 97]])
def valuation(S, p):
    c = S.mod(C)
    n = S.int('n', -10**9, 10**9, bv=False)
    S.assume(n != 0)
    r = S.conc(c.valuation(p, n))
    S.observe(r)
    S.check(r >= 0, 'valuation negative')
    q = abs(p)**max(r, 0)
    S.check(band(n % q == 0, n % (q * abs(p)) != 0), 'valuation')


@harness('N02', quick=[dict(B=2**10)], thorough=[dict(B=2**14)])
def bits(S, B):
    c = S.mod(C)
    n = S.int('n', -B, B)
    r = c.bit_count(n)
    S.observe(r)
    m = abs(n)
    S.check(r == sum_f((m // 2**i) % 2 for i in range(B.bit_length())), 'bit_count')


@harness('N02', conc_div=True, quick=[dict(b=b, lo=lo, hi=hi) for b, lo, hi in ((2, 40, 130), (3, 30, 80), (7, 15, 40), (10, 12, 45), (97, 5, 20), (2**31, 1, 6), (10**9 + 7, 1, 5))],
         thorough=[dict(b=b, lo=1, hi=300) for b in (2, 3, 5, 6, 10, 12, 97)] + [dict(b=b, lo=1, hi=30) for b in (2**31, 10**9 + 7, 10**20)])
def large_logs(S, b, lo, hi):
    """Logarithms and valuations around large powers."""
    c = S.mod(C)
    k, t = S.conc(S.int('k', lo, hi)), S.conc(S.int('t', -1, 1))
    S.check(c.integer_log(b, b**k + t) == (k if t >= 0 else k - 1), 'integer_log at a large power')
    S.check(c.valuation(b, b**k * (b + 1)) == k, 'valuation of a large power')
    S.check(c.valuation(b, -b**k * (b * b - 1)) == k, 'valuation of a large power')


BM = (2**31 - 1, 2**53 + 1, 10**18 + 9, 2**89 - 1, 3**50, 2**64)


@harness('N02', conc_div=True, quick=[dict(m=m) for m in BM[:4]], thorough=[dict(m=m) for m in BM])
def large_moduli(S, m):
    c = S.mod(C)
    a = S.choice('a', [2, 3, 10**9 + 7, m - 1, m - 2, m // 2, m, m + 1, 5 * m + 7, 2**70 + 1])
    k = S.choice('k', [1, 2, 3, 63, 64, 65, 1000, 2**40, 2**64 - 1, m - 1, m, 10**30])
    S.check(c.power_mod(a, k, m) == pow(a, k, m), 'power_mod with a large modulus')


@harness('N02', conc_div=True, quick=[dict(e=e) for e in (52, 53, 60, 64, 100)], thorough=[dict(e=e) for e in range(40, 200, 4)])
def large_bits(S, e):
    c = S.mod(C)
    n = 2**e + S.conc(S.int('t', -6, 6)) * 2**S.choice('j', [0, 20, 41])
    S.check(c.bit_count(n) == bin(n).count('1') == c.bit_count(-n), 'bit_count of a large number')
