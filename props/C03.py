"""Enumeration numbers."""
from itertools import product
from functools import lru_cache
from math import gcd, comb, factorial
from symx.run import harness, META, windows
from symx.oracle import *

META['C03'] = dict(bounds='every argument in the listed windows; the number of colours of a necklace and the upper '
                          'argument of a binomial coefficient stay symbolic in the solver; besides these, listed large arguments '
                          '(up to 150 for binomial, Stirling and Bell numbers, 1000 for partitions)')
E = 'rosemary.combinatorics.enumeration.enumeration'


@lru_cache(None)
def stir(m, n):
    if m == 0 or n == 0:
        return 1 if m == n else 0
    return stir(m - 1, n - 1) + n * stir(m - 1, n) if n <= m else 0


@harness('C03', quick=windows(0, 24, 8), thorough=windows(0, 60, 10))
def set_partitions(S, lo, hi):
    m = S.mod(E)
    n = S.conc(S.int('n', lo, hi))
    b = m.bell_number(n)
    S.check(b == sum(stir(n, k) for k in range(n + 1)), 'bell_number')
    k = S.conc(S.int('k', 0, n + 2))
    s = m.stirling_number2(n, k)
    S.observe(b, s)
    S.check(s == stir(n, k), 'stirling_number2')


@harness('C03')
def domain(S):
    m = S.mod(E)
    n = S.int('n', -5, -1)
    S.raises(ValueError, m.bell_number, n, label='bell_number of a negative n')
    ks = S.ints('k', 2, 0, 6)
    t = S.int('t', 1, 10)
    if ks[0] + ks[1] > t:
        S.raises(ValueError, m.multinomial, t, ks, label='multinomial with too many parts')


@harness('C03', t=100, quick=[dict(N=30, k=k) for k in (0, 1, 2, 3, 5, 8)], thorough=[dict(N=40, k=k) for k in range(25)])
def binomial(S, N, k):
    """n symbolic below and above k."""
    m = S.mod(E)
    n = S.int('n', 0, N)
    r = m.binomial(n, k)
    S.observe(r)
    S.check(r == table(n, lambda v: comb(v, k)), 'binomial')


@harness('C03', quick=windows(0, 30, 10), thorough=windows(0, 120, 20))
def binomial_all(S, lo, hi):
    m = S.mod(E)
    n = S.conc(S.int('n', lo, hi))
    k = S.conc(S.int('k', 0, n + 2))
    S.check(m.binomial(n, k) == comb(n, k), 'binomial')


@harness('C03', quick=[dict(n=n, m=k) for n, k in ((4, 1), (6, 2), (8, 2), (8, 3), (9, 4))], thorough=[dict(n=n, m=k) for n, k in ((8, 1), (12, 2), (12, 3), (12, 4))])
def multinomial(S, n, m):
    M = S.mod(E)
    t = S.int('t', 1, n)
    ks = S.ints('k', m, 0, n)
    S.assume(sum_f(ks) <= t)
    ks, t = [S.conc(k) for k in ks], S.conc(t)
    r = M.multinomial(t, ks)
    w = factorial(t)
    for k in ks:
        w //= factorial(k)
    S.observe(r)
    S.check(r == w, 'multinomial')
    S.check(M.multinomial(t, tuple(ks)) == w, 'multinomial of a tuple')


def pcount(n):
    p = [1] + [0] * n
    for k in range(1, n + 1):
        for j in range(k, n + 1):
            p[j] += p[j - k]
    return p


@harness('C03', quick=windows(0, 180, 30), thorough=windows(0, 400, 50))
def partition_numbers(S, lo, hi):
    m = S.mod(E)
    n = S.conc(S.int('n', lo, hi))
    r = m.partition_list(n)
    S.observe(r)
    S.check(list(r) == pcount(n), 'partition_list')
    S.check(m.partition_number(n) == pcount(n)[n], 'partition_number')


@harness('C03', quick=[dict(N=14, R=5)], thorough=[dict(N=30, R=12)])
def power_partitions(S, N, R):
    m = S.mod(E)
    n, r = S.conc(S.int('n', 0, N)), S.conc(S.int('r', 1, R))
    g = m.rth_power_partition_number(r, n)
    w, p = [1] + [0] * n, pcount(n)
    for _ in range(r):
        w = [sum(w[i] * p[j - i] for i in range(j + 1)) for j in range(n + 1)]
    S.observe(g)
    S.check(g == w[n], 'rth_power_partition_number')


@harness('C03', quick=[dict(N=8)], thorough=[dict(N=16)])
def bipartitions(S, N):
    m = S.mod(E)
    a, b = S.conc(S.int('a', 0, N)), S.conc(S.int('b', 0, N))
    w = {(i, j): 1 if i == j == 0 else 0 for i in range(a + 1) for j in range(b + 1)}
    for x in range(a + 1):
        for y in range(b + 1):
            if x + y:
                for i in range(x, a + 1):
                    for j in range(y, b + 1):
                        w[i, j] += w[i - x, j - y]
    r = m.bipartitions(a, b)
    S.observe(r)
    S.check(r == w[a, b], 'bipartitions')


def tilings(rows, cols, shapes):
    full = frozenset((i, j) for i in range(rows) for j in range(cols))
    placed = []
    for s in shapes:
        for i, j in full:
            for dj in range(-2, 1):
                c = frozenset((i + a, j + b + dj) for a, b in s)
                if c <= full and c not in placed:
                    placed.append(c)
    by = {}
    for c in placed:
        by.setdefault(min(c), []).append(c)

    @lru_cache(None)
    def go(left):
        if not left:
            return 1
        return sum(go(left - c) for c in by.get(min(left), []) if c <= left)
    return go(full)


DOMINO = [((0, 0), (0, 1)), ((0, 0), (1, 0))]
L = [(0, 0), (0, 1), (1, 0), (1, 1)]
TRI = [tuple(x for x in L if x != y) for y in L] + [((0, 0), (0, 1), (0, 2)), ((0, 0), (1, 0), (2, 0))]


@harness('C03', t=100, quick=[dict(A=1, B=9, cap=24), dict(A=2, B=7, cap=42)], thorough=[dict(A=1, B=12, cap=48)])
def boards(S, A, B, cap):
    m = S.mod(E)
    a, b = S.int('a', A, B), S.int('b', A, B)
    S.assume(a * b <= cap)
    a, b = S.conc(a), S.conc(b)
    d = m.number_of_domino_tilings(a, b)
    S.observe(d)
    S.check(d == tilings(a, b, DOMINO), 'number_of_domino_tilings')
    if a * b <= cap * 2 // 3:
        t = m.triomino_tilings(a, b)
        S.observe(t)
        S.check(t == tilings(a, b, TRI), 'triomino_tilings')


@harness('C03', t=100, quick=[dict(n=n) for n in (1, 2, 3, 4, 6, 8, 12)], thorough=[dict(n=n) for n in range(1, 25)])
def necklaces_colours(S, n):
    """Any number of colours."""
    m = S.mod(E)
    k = S.int('k', 1, 2**max(2, min(8, 36 // n)))
    r = m.necklaces(n, k)
    S.observe(r)
    S.check(n * r == sum_f(k**gcd(i, n) for i in range(1, n + 1)), 'necklaces')


def orbits(n, ws):
    beads = [c for c, w in enumerate(ws) for _ in range(w)]
    from itertools import permutations
    return len({min(p[i:] + p[:i] for i in range(n)) for p in set(permutations(beads))})


@harness('C03', t=100, quick=[dict(n=n, k=k) for n, k in ((1, 1), (3, 2), (4, 2), (6, 2), (6, 3))], thorough=[dict(n=n, k=k) for n in range(1, 9) for k in (1, 2, 3)])
def necklaces_weights(S, n, k):
    m = S.mod(E)
    ws = S.ints('w', k, 1, n)
    S.assume(sum_f(ws) == n)
    ws = [S.conc(w) for w in ws]
    r = m.necklaces(n, k, ws)
    S.observe(r)
    S.check(r == orbits(n, tuple(ws)), 'necklaces with weights')


@harness('C03', quick=[dict(n=n) for n in (60, 68, 80, 100, 150)], thorough=[dict(n=n) for n in (60, 68, 80, 100, 150, 200, 300)])
def large(S, n):
    """Values far above 2**53."""
    m = S.mod(E)
    k = S.choice('k', [0, 1, 2, 3, n // 4, n // 3, n // 2, n // 2 + 1, n - 2, n]) + S.conc(S.int('s', -1, 1))
    S.assume(k >= 0)
    S.check(m.binomial(n, k) == comb(n, k), 'binomial(%d, %d)' % (n, k))
    S.check(m.stirling_number2(n, k) == stir(n, k), 'stirling_number2(%d, %d)' % (n, k))
    if k <= n:
        j = (n - k) // 2
        for ks in ([k], [k, j], [j, k], [j, n - k - j, k]):
            S.check(m.multinomial(n, ks) == factorial(n) // prod_fact(ks), 'multinomial(%d, %s)' % (n, ks))


def prod_fact(ks):
    w = 1
    for k in ks:
        w *= factorial(k)
    return w


@harness('C03', quick=[dict(n=n) for n in (50, 70, 100, 500, 1000)], thorough=[dict(n=n) for n in (50, 70, 100, 150, 500, 1000, 2000)])
def large_single(S, n):
    m = S.mod(E)
    n += S.conc(S.int('s', -1, 1))
    p = pcount(n)
    S.check(m.partition_number(n) == p[n], 'partition_number')
    S.check(list(m.partition_list(n)) == p, 'partition_list')
    if n <= 120:
        S.check(m.bell_number(n) == sum(stir(n, k) for k in range(n + 1)), 'bell_number')


@harness('C03', quick=[dict(n=n) for n in (12, 18, 24, 30, 36, 60, 97, 100)], thorough=[dict(n=n) for n in (12, 18, 20, 24, 30, 36, 48, 60, 72, 97, 100, 210)])
def necklaces_large(S, n):
    m = S.mod(E)
    k = S.choice('k', [2, 3, 5, 7, 10, 26])
    S.check(m.necklaces(n, k) == sum(k**gcd(i, n) for i in range(1, n + 1)) // n, 'necklaces')


def fixed(n, ws):
    """Burnside over the rotations of beads with the given multiplicities."""
    w = 0
    for i in range(1, n + 1):
        s = gcd(i, n)
        if all(x % (n // s) == 0 for x in ws):
            t, left = 1, s
            for x in ws:
                c = x * s // n
                t, left = t * comb(left, c), left - c
            w += t
    return w // n


@harness('C03', quick=[dict(k=k, f=f) for k, f in ((2, 1), (3, 1), (4, 1), (4, 2), (5, 1), (4, 3), (3, 6), (5, 2))], thorough=[dict(k=k, f=f) for k in (2, 3, 4, 5, 6) for f in (1, 2, 3, 4, 6)])
def necklaces_many_weights(S, k, f):
    """Up to five colours, all multiplicities a multiple of f or all but the last."""
    m = S.mod(E)
    ws = [f * S.conc(x) for x in S.ints('w', k, 1, 3)]
    ws[S.choice('at', [0, k - 1])] += S.choice('off', [0, 1])
    S.check(m.necklaces(sum(ws), k, list(ws)) == fixed(sum(ws), ws), 'necklaces with multiplicities %s' % (ws,))


@harness('C03')
def no_parts(S):
    m = S.mod(E)
    S.raises(ValueError, m.multinomial, S.int('n', 0, 9), [], label='multinomial without parts')
