"""Power series: inverse, powers, products, the eta and delta expansions."""
from symx.run import harness, META
from symx.oracle import *
from .A01 import conv, same, values

META['A03'] = dict(bounds='lengths as listed; coefficients arbitrary integers for products and inverses, '
                          'bounded for powers; constant term 1 or -1 for inverses, nonzero for powers; '
                          'precision up to the listed value for eta and delta; listed coefficients up to 2**100')
P = 'rosemary.algebra.power_series.power_series'


@harness('A03', t=100, quick=[dict(n=n, a0=a0) for n in (1, 2, 3, 4, 5) for a0 in (1, -1)], thorough=[dict(n=n, a0=a0) for n in range(1, 8) for a0 in (1, -1)])
def inverse(S, n, a0):
    m = S.mod(P)
    a = [a0] + [S.int('a%d' % i) for i in range(1, n)]
    keep = list(a)
    b = m.ps_invert(a)
    S.check(len(b) == n, 'length of the inverse')
    S.observe(b)
    # the inverse is determined by the recurrence b_0 = a0, b_k = -a0 sum a_i b_{k-i}
    w = [a0]
    for k in range(1, n):
        w.append(-a0 * sum_f(a[i] * w[k - i] for i in range(1, k + 1)))
    same(S, b, w, 'inverse')
    same(S, a, keep, 'the operand was modified')


@harness('A03', t=100, quick=[dict(n=n, B=3) for n in (2, 4)], thorough=[dict(n=n, B=B) for n, B in ((3, 9), (5, 3), (6, 2))])
def inverse_times_series(S, n, B):
    m = S.mod(P)
    a0 = S.choice('s', [1, -1])
    a = [a0] + S.ints('a', n - 1, -B, B)
    b = m.ps_invert(a)
    p = m.ps_mult_classical(a, b)[:n]
    same(S, p, [1], 'series times its inverse is not 1')


@harness('A03', t=100, quick=[dict(n=n, k=k, B=B) for n, k, B in ((1, 3, 5), (2, 2, 4), (2, 5, 2), (3, 2, 3), (3, 3, 2), (4, 2, 1), (3, 0, 2), (3, 1, 3))],
         thorough=[dict(n=n, k=k, B=B) for n, k, B in ((2, 2, 20), (2, 6, 3), (3, 3, 4), (4, 3, 2), (5, 2, 1), (5, 4, 1), (4, 0, 3), (4, 1, 5))])
def power(S, n, k, B):
    m = S.mod(P)
    a = S.ints('a', n, -B, B)
    S.assume(a[0] != 0)
    r = m.ps_power(a, k)
    S.check(len(r) == n, 'length of the power')
    S.observe(r)
    w = [1] + [0] * (n - 1)
    for _ in range(k):
        w = conv(w, a)[:n]
    same(S, r, w, 'power')


@harness('A03', quick=[dict(n=n, k=k) for n, k in ((4, 24), (6, 7))], thorough=[dict(n=n, k=k) for n, k in ((4, 24), (8, 7), (6, 30))])
def power_of_unit(S, n, k):
    """Constant term 1, arbitrary listed coefficients -1..1, larger exponents."""
    m = S.mod(P)
    a = [1] + [S.conc(x) for x in S.ints('a', n - 1, -1, 1)]
    r = m.ps_power(a, k)
    w = [1] + [0] * (n - 1)
    for _ in range(k):
        w = conv(w, a)[:n]
    S.check(list(r) == w, 'power')


@harness('A03', quick=[dict(m=m, n=n, t=t) for m, n, t in ((1, 1, 2), (2, 2, 2), (3, 2, 2), (2, 4, 2), (4, 4, 2), (5, 3, 2), (5, 5, 3), (6, 6, 2), (3, 7, 3))],
         thorough=[dict(m=m, n=n, t=t) for m in range(1, 10) for n in range(1, 10) for t in (2, 3)])
def karatsuba_small(S, m, n, t):
    """Both factors symbolic, recursion forced by a small threshold."""
    M = S.mod(P)
    a = [S.int('a%d' % i) for i in range(m)]
    b = [S.int('b%d' % i) for i in range(n)]
    S.observe(1)
    same(S, M.ps_mult_karatsuba(a, b, t), conv(a, b), 'product')
    same(S, M.ps_mult_classical(a, b), conv(a, b), 'schoolbook product')
    S.check(len(a) == m and len(b) == n, 'the operand was modified')


@harness('A03', t=100, quick=[dict(m=m, n=n) for m, n in ((40, 40), (41, 40), (40, 70), (83, 80))],
         thorough=[dict(m=m, n=n) for m, n in ((40, 40), (41, 40), (40, 70), (83, 80), (160, 161), (81, 120), (45, 200))])
def karatsuba_default(S, m, n):
    M = S.mod(P)
    a = [S.int('a%d' % i) for i in range(m)]
    b = values(n, 3)
    same(S, M.ps_mult_karatsuba(a, b), conv(a, b), 'product')
    same(S, M.ps_mult_karatsuba(b, a), conv(a, b), 'product (swapped)')


@harness('A03', quick=[dict(lo=1, hi=60), dict(lo=61, hi=80)], thorough=[dict(lo=a, hi=a + 40) for a in range(1, 400, 41)])
def eta(S, lo, hi):
    m = S.mod(P)
    n = S.conc(S.int('n', lo, hi))
    r = m.eta_series(n)
    w = [1] + [0] * (n - 1)
    for k in range(1, n):
        for j in range(n - 1, k - 1, -1):
            w[j] -= w[j - k]
    S.check(list(r) == w, 'eta is not the product of (1 - x^k)')


@harness('A03', quick=[dict(lo=1, hi=20)], thorough=[dict(lo=1, hi=30), dict(lo=31, hi=60)])
def delta(S, lo, hi):
    m = S.mod(P)
    n = S.conc(S.int('n', lo, hi))
    r = m.delta_series(n)
    e = [1] + [0] * (n - 1)
    for k in range(1, n):
        for j in range(n - 1, k - 1, -1):
            e[j] -= e[j - k]
    w = [1] + [0] * (n - 1)
    for _ in range(24):
        w = conv(w, e)[:n]
    S.check(list(r) == w, 'delta is not the 24th power of eta')


@harness('A03', t=100, quick=[dict(n=n) for n in (101, 257, 425, 426, 427, 600, 1001)], thorough=[dict(n=n) for n in (101, 257, 425, 426, 427, 600, 1001, 2000, 3000)])
def eta_far(S, n):
    """The pentagonal number theorem at larger precisions."""
    m = S.mod(P)
    n += S.conc(S.int('o', -1, 1))
    w = [0] * n
    k = 0
    while k * (3 * k - 1) // 2 < n:
        for j in (k, -k):
            e = j * (3 * j - 1) // 2
            if e < n:
                w[e] = (-1)**k
        k += 1
    S.check(list(m.eta_series(n)) == w, 'eta')


@harness('A03', t=100, quick=[dict(n=n) for n in (48, 70)], thorough=[dict(n=n) for n in (48, 70, 120, 200)])
def delta_far(S, n):
    """The values of Ramanujan's function, by its own recurrence."""
    m = S.mod(P)
    n += S.conc(S.int('o', -1, 1))
    sg = [sum(d for d in range(1, j + 1) if j % d == 0) for j in range(1, n + 1)]
    w = [1]
    for k in range(1, n):
        t = sum(sg[i - 1] * w[k - i] for i in range(1, k + 1))
        w.append(-24 * t // k)
    S.check(list(m.delta_series(n)) == w, 'delta')


@harness('A03', t=100, quick=[dict(n=n) for n in (3, 6, 45, 90)], thorough=[dict(n=n) for n in (3, 6, 45, 90, 180)])
def huge_values(S, n):
    """Coefficients beyond 2**53."""
    from .A01 import huge
    m = S.mod(P)
    v = S.conc(S.int('v', -2, 2))
    a, b = huge(S, n, 0, 1, v), huge(S, n + 3, 4, 2, v + 1)
    same(S, m.ps_mult_karatsuba(a, b), conv(a, b), 'product')
    same(S, m.ps_mult_karatsuba(b, a), conv(a, b), 'product (swapped)')
    if n > 10:
        return
    a[0] = S.choice('u', [1, -1])
    c = m.ps_invert(a)
    same(S, conv(a, c)[:n], [1], 'series times its inverse is not 1')
    a[0] = HEAD[v]
    w = [1]
    for k in range(5):
        same(S, m.ps_power(a, k)[:n], (w + [0] * n)[:n], 'power')
        w = conv(w, a)[:n]


HEAD = {-2: 2**53 + 1, -1: -3, 0: 1, 1: 10**17 + 3, 2: -1}
