"""Permutations, variations and combinations."""
from itertools import combinations as comb, permutations, product
from symx.run import harness, META
from symx.oracle import *

META['C01'] = dict(bounds='multisets of up to the listed number of elements, the elements arbitrary integers (every '
                          'weak ordering; for the longer ones given in ascending order); combinations for every '
                          '(n, t) up to the listed n')
P = 'rosemary.combinatorics.generation.permutations'

def elements(S, n, ordered):
    xs = [S.int('x%d' % i) for i in range(n)]
    if ordered:
        S.assume(increasing(xs, False))
    return xs

def arrangements(S, xs, lengths):
    """The distinct arrangements of the given lengths, in lexicographic order."""
    rank = [S.conc(count_f(y < x for y in xs)) for x in xs]
    val = {r: x for r, x in zip(rank, xs)}
    want = sorted({p for k in lengths for p in permutations(rank, k)})
    return [[val[r] for r in p] for p in want]

def same_lists(S, got, want, what):
    S.check(len(got) == len(want), what + ': number of arrangements')
    S.check(all_f(len(g) == len(w) for g, w in zip(got, want)), what + ': lengths')
    S.check(all_f(a == b for g, w in zip(got, want) for a, b in zip(g, w)), what + ': arrangements or their order')

Q = [dict(n=n, ordered=False) for n in (1, 2, 3, 4)] + [dict(n=5, ordered=True), dict(n=6, ordered=True)]
T = [dict(n=n, ordered=False) for n in (1, 2, 3, 4, 5)] + [dict(n=6, ordered=True), dict(n=7, ordered=True)]


@harness('C01', t=150, path_t=60, quick=Q, thorough=T)
def permutations_lex(S, n, ordered):
    m = S.mod(P)
    xs = elements(S, n, ordered)
    want = arrangements(S, xs, [n])
    given = list(xs)
    for name in ('knuth_algorithm_l', 'phillips'):
        r = list(getattr(m, name)(xs))
        S.observe(r[:30])
        same_lists(S, r, want, name)
        same_lists(S, [xs], [given], name + ' changed its input')

@harness('C01', t=150, path_t=60, quick=Q[:-1], thorough=T[:-1])
def variations(S, n, ordered):
    m = S.mod(P)
    xs = elements(S, n, ordered)
    r = list(m.knuth_algorithm_l_variations(xs))
    S.observe(r[:30])
    same_lists(S, r, arrangements(S, xs, range(n + 1)), 'variations')

@harness('C01', t=150, path_t=60, quick=[dict(q, r=r) for q in Q[:-1] for r in range(1, q['n'] + 1)],
         thorough=[dict(q, r=r) for q in T for r in range(1, q['n'] + 1)])
def r_variations(S, n, ordered, r):
    m = S.mod(P)
    xs = elements(S, n, ordered)
    g = list(m.knuth_algorithm_l_rvariations(xs, r))
    S.observe(g[:30])
    same_lists(S, g, arrangements(S, xs, [r]), 'variations of length r')

@harness('C01', quick=[dict(N=10)], thorough=[dict(N=15)])
def combinations(S, N):
    m = S.mod('rosemary.combinatorics.generation.combinations')
    n, t = S.conc(S.int('n', 0, N)), S.int('t', 0, N)
    S.assume(t <= n)
    t = S.conc(t)
    r = [list(c) for c in m.combinations(n, t)]
    S.observe(r[:30])
    S.check(sorted(sorted(c) for c in r) == [list(c) for c in comb(range(n), t)], 'combinations')

