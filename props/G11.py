"""Degree sequences, against the existence of a graph as a formula over its edges."""
from functools import lru_cache
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G11'] = dict(bounds='every sequence of integers of the listed length with entries from 0 (from -1 where noted) to one more '
                          'than can occur; the entries are symbolic in the code of the tests; '
                          'sequences of up to 25 entries with two or three different values in listed numbers')
M = 'rosemary.graphs.algorithms.degree_sequences'


@lru_cache(None)
def graphic_set(n):
    out = {tuple([0] * n)}
    for u, v in pairs(n):
        out |= {tuple(d + (i in (u, v)) for i, d in enumerate(s)) for s in out}
    return out


@harness('G11', t=150, quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], thorough=[dict(n=n) for n in (5, 6)])
def tests(S, n):
    m = S.mod(M)
    s = [S.int('d%d' % i, 0, n) for i in range(n)]
    if n > 3:
        # symmetric functions of the entries are enough beyond n = 3
        for a, b in zip(s, s[1:]):
            S.assume(a >= b) if n % 2 else S.assume(a <= b)
    a = m.is_graphic(list(s))
    b = m.is_graphic_erdos_gallai(list(s))
    S.observe(a, b)
    known = graphic_set(n) if n <= 3 else {tuple(sorted(t, reverse=bool(n % 2))) for t in graphic_set(n)}
    want = any_f(all_f(x == y for x, y in zip(s, t)) for t in sorted(known))
    S.check(biff(a, want), 'is_graphic')
    S.check(biff(b, want), 'is_graphic_erdos_gallai')


@harness('G11', t=100, quick=[dict(n=n) for n in (2, 3, 4, 5)], thorough=[dict(n=5)])
def realised(S, n):
    """The degree sequence of every graph is accepted."""
    m = S.mod(M)
    es = sym_edges(S, n)
    g = build(S, n, es)
    s = [g.degree(u) for u in range(n)]
    S.check(m.is_graphic(s) and m.is_graphic_erdos_gallai(s), 'a degree sequence is rejected')


def hh(s):
    """Havel and Hakimi's reduction on numbers."""
    s = sorted(s)
    while s and s[-1] > 0:
        d = s.pop()
        if d > len(s):
            return False
        k = len(s) - d
        s[k:] = [x - 1 for x in s[k:]]
        if s[0] < 0 or min(s) < 0:
            return False
        s.sort()
    return not s or s[0] == 0


CUTS = [(8, (3,)), (9, (5,)), (9, (2, 6)), (11, (1, 4)), (13, (6,)), (13, (4, 9)), (14, (1, 12)), (17, (9,)), (18, (2,)), (24, (11,)), (25, (20,))]


@harness('G11', t=100, conc_div=True, quick=[dict(n=n, cut=list(c)) for n, c in CUTS], thorough=[dict(n=n, cut=[a]) for n in (8, 10, 13, 17, 24, 31) for a in range(1, n, 2)] + [dict(n=n, cut=[a, b]) for n in (8, 11, 14) for a in range(1, n - 1, 2) for b in range(a + 1, n, 2)])
def blocks(S, n, cut):
    """Longer sequences of two or three different values."""
    m = S.mod(M)
    d = S.ints('d', len(cut) + 1, 0, n)
    for a, b in zip(d, d[1:]):
        S.assume(a >= b)
    d = [S.conc(x) for x in d]
    s = []
    for x, a, b in zip(d, [0] + cut, cut + [n]):
        s += [x] * (b - a)
    want = hh(s)
    S.check(m.is_graphic(list(s)) == want, 'is_graphic')
    S.check(m.is_graphic_erdos_gallai(s[::-1]) == want, 'is_graphic_erdos_gallai')
