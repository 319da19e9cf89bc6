"""Arithmetic progressions, divisor maximisation, Bernoulli numbers."""
from fractions import Fraction
from symx.run import harness, META, windows
from symx.oracle import *

META['N16'] = dict(bounds='lists of up to the listed number of arbitrary increasing integers; n and B any '
                          'value in the listed windows')
A = 'rosemary.number_theory.arithmetic_progressions'
M = 'rosemary.number_theory.misc'


def rising(S, n):
    xs = [S.int('a%d' % i) for i in range(n)]
    for i in range(n - 1):
        S.assume(xs[i] < xs[i + 1])
    return xs


@harness('N16', t=100, quick=[dict(n=n) for n in (0, 1, 2, 3, 4, 5)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 4, 5, 6, 7)])
def three_terms(S, n):
    m = S.mod(A)
    xs = rising(S, n)
    keep = list(xs)
    r = m.has_three_term_ap(xs)
    q = m.has_three_term_ap(xs, indices=True)
    trip = [(i, j, k) for j in range(n) for i in range(j) for k in range(j + 1, n)]
    if r is False:
        S.check(all_f(xs[i] + xs[k] != 2 * xs[j] for i, j, k in trip), 'a progression is missed')
        S.check(q is False, 'the two forms disagree')
    else:
        i, j, k = q
        S.observe(q)
        S.check(0 <= i < j < k < n, 'indices')
        S.check(xs[i] + xs[k] == 2 * xs[j], 'not a progression')
        S.check(all_f(a == b for a, b in zip(r, (xs[i], xs[j], xs[k]))), 'the two forms disagree')
    S.check(all_f(a == b for a, b in zip(keep, xs)), 'the list was modified')


@harness('N16', t=100, quick=[dict(n=n) for n in (0, 1, 2, 3, 4)] + [dict(n=5, top=8)], thorough=[dict(n=n) for n in (0, 1, 2, 3, 4, 5)] + [dict(n=6, top=12)])
def longest(S, n, top=None):
    m = S.mod(A)
    if top:
        xs = S.ints('a', n, 1, top)
        for i in range(n - 1):
            S.assume(xs[i] < xs[i + 1])
    else:
        xs = rising(S, n)
    r = m.longest_ap(xs)
    S.observe(r)
    if n < 2:
        S.check(r == [] or n == 1, 'longest_ap of a short list')
        return
    L = len(r[0])
    S.check(all(len(t) == L for t in r), 'lengths differ')
    for t in r:
        S.check(all_f(member(x, xs) for x in t), 'not an element of the list')
        S.check(all_f(t[i + 1] - t[i] == t[1] - t[0] for i in range(L - 1)), 'not a progression')
        S.check(t[0] < t[1], 'not increasing')
    S.check(all_f(bor(a[0] < b[0], band(a[0] == b[0], a[1] < b[1])) for a, b in zip(r, r[1:])), 'not sorted or repeated')
    # any progression of that length is listed and none is longer
    for i in range(n):
        for j in range(i + 1, n):
            d = xs[j] - xs[i]
            full = all_f(member(xs[i] + d * k, xs) for k in range(2, L))
            S.check(implies(full, any_f(band(t[0] == xs[i], t[1] == xs[j]) for t in r)), 'a longest progression is missed')
            S.check(implies(full, bnot(member(xs[i] + d * L, xs))), 'a longer progression exists')


@harness('N16', quick=windows(1, 60, 15) + [dict(lo=a, hi=a) for a in (72, 96, 120, 144, 180, 210, 360)],
         thorough=windows(1, 300, 20) + [dict(lo=a, hi=a) for a in (720, 1024, 1260, 2310, 5040)])
def largest_divisor(S, lo, hi):
    m = S.mod(M)
    n = S.conc(S.int('n', lo, hi))
    b = S.int('b', 1, n)
    r = m.largest_divisor(n, b)
    S.observe(r)
    S.check(r == max_f([ite(b >= d, d, 1) for d in range(1, n + 1) if n % d == 0]), 'largest_divisor')


def taus(top):
    t = [0] * (top + 1)
    for d in range(1, top + 1):
        for j in range(d, top + 1, d):
            t[j] += 1
    return t


@harness('N16', quick=windows(1, 1400, 175), thorough=windows(1, 12000, 600))
def maximize_divisors(S, lo, hi):
    m = S.mod(M)
    B = S.int('B', lo, hi)
    t, n = m.maximize_divisors(B)
    S.observe(t, n)
    T = taus(hi)
    best = [0]
    for x in T[1:]:
        best.append(max(best[-1], x))
    S.check(band(n >= 1, n <= B), 'maximize_divisors: n out of range')
    S.check(t == T[S.conc(n)], 'maximize_divisors: wrong divisor count')
    S.check(t == table(B, lambda b: best[b]), 'maximize_divisors: not maximal')


@harness('N16', t=100, quick=windows(0, 40, 20) + [dict(lo=n, hi=n) for n in (50, 60, 72, 80)], thorough=windows(0, 120, 40))
def bernoulli(S, lo, hi):
    m = S.mod(M)
    n = S.conc(S.int('n', lo, hi))
    r = m.bernoulli_list(n)
    S.check(len(r) == n + 1, 'length')
    # Akiyama-Tanigawa (gives B_1 = +1/2)
    w = []
    for k in range(n + 1):
        a = [Fraction(1, j + 1) for j in range(k + 1)]
        for _ in range(k):
            a = [(j + 1) * (a[j] - a[j + 1]) for j in range(len(a) - 1)]
        w.append(-a[0] if k == 1 else a[0])
    S.check([Fraction(x) for x in r] == w, 'bernoulli_list')
