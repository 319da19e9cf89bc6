"""Knapsack solvers."""
import random
from itertools import combinations
from symx.run import harness, META
from symx.oracle import *
from symx.anneal import clipped

META['C04'] = dict(bounds='up to 12 items of which all but the values of one or two are fixed; '
                          'up to the listed number of items; for the exhaustive search values, weights and the capacity '
                          'are arbitrary non-negative integers; for dynamic programming weights and capacity are bounded '
                          'and values arbitrary; for branch and bound weights are every tuple in the listed range, values '
                          'and capacity symbolic and bounded',
                   assumptions=['quotients of integers below 2**26 compare as the exact rationals (float rounding of '
                                'the bound is not modelled)'])
K = 'rosemary.combinatorics.optimization.knapsack'


def optimal(S, items, capacity, value, used, what, order=None):
    n = len(items)
    S.check(all_f(implies(sum_f(items[i][1] for i in T) <= capacity, sum_f(items[i][0] for i in T) <= value)
                  for r in range(n + 1) for T in combinations(range(n), r)), what + ': a better selection exists')
    S.check(sum_f(u[1] for u in used) <= capacity, what + ': the selection is too heavy')
    S.check(sum_f(u[0] for u in used) == value, what + ': the selection does not have the reported value')
    # the selection is a sub-multiset of the items
    S.check(any_f(all_f(band(u[0] == items[i][0], u[1] == items[i][1]) for u, i in zip(used, T))
                  for T in perms(range(n), len(used))), what + ': the selection is not made of the items')


def perms(xs, k):
    from itertools import permutations
    return permutations(xs, k)


@harness('C04', t=150, quick=[dict(n=n) for n in (0, 1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def exhaustive(S, n):
    m = S.mod(K)
    items = [(S.int('v%d' % i, 0), S.int('w%d' % i, 0)) for i in range(n)]
    c = S.int('c', 0)
    v, used = m.depth_first(items, c)
    S.observe(v, used)
    optimal(S, items, c, v, used, 'depth_first')


@harness('C04', t=150, quick=[dict(n=1, W=5, c=c) for c in (0, 3)] + [dict(n=2, W=4, c=c) for c in (0, 2, 4, 6)] + [dict(n=3, W=3, c=c) for c in (2, 4, 6)],
         thorough=[dict(n=2, W=8, c=c) for c in range(9)] + [dict(n=3, W=5, c=c) for c in range(9)] + [dict(n=4, W=3, c=c) for c in (3, 5, 7)])
def dynamic(S, n, W, c):
    m = S.mod(K)
    items = [(S.int('v%d' % i, 0), S.conc(S.int('w%d' % i, 0, W))) for i in range(n)]
    v, used = m.dynamic_programming(items, c)
    S.observe(v, used)
    optimal(S, items, c, v, used, 'dynamic_programming')


def bweights(n, W, step=1):
    from itertools import product
    return [dict(w=list(w), lo=c, hi=min(c + step - 1, sum(w) + 1)) for w in product(range(1, W + 1), repeat=n)
            if list(w) == sorted(w) for c in range(0, sum(w) + 2, step)]


BQ = bweights(1, 3, 5) + bweights(2, 4, 4) + bweights(3, 3)
BT = bweights(2, 6, 3) + bweights(3, 5) + [dict(w=w, lo=c, hi=c) for w in ([1, 1, 2, 2], [1, 2, 3, 3], [2, 2, 3, 3]) for c in (2, 3, 4, 5, 6)]


@harness('C04', t=200, quick=BQ, thorough=BT)
def branch_and_bound(S, w, lo, hi):
    m = S.mod(K)
    items = [(S.int('v%d' % i, 0, 15), x) for i, x in enumerate(w)]
    c = S.int('c', lo, hi)
    v, used = m.branch_and_bound_depth_first(list(items), c)
    S.observe(v, used)
    optimal(S, items, c, v, used, 'branch_and_bound')
    S.check(all_f(band(items[u[2]][0] == u[0], items[u[2]][1] == u[1]) for u in used), 'branch_and_bound: item index')
    S.check(len({u[2] for u in used}) == len(used), 'branch_and_bound: an item is used twice')


@harness('C04', t=150, quick=[dict(n=1, k=3), dict(n=2, k=3), dict(n=3, k=2), dict(n=2, k=4, j=0), dict(n=2, k=4, j=1)], thorough=[dict(n=2, k=5, j=j) for j in (0, 1)] + [dict(n=3, k=4, j=j) for j in (0, 1, 2)])
def annealing(S, n, k, j=None):
    """k steps of the annealing loop, whatever the random numbers are."""
    m = S.mod(K)
    items = [(S.int('v%d' % i, 0, 3), S.int('w%d' % i, 0)) for i in range(n)]
    c = S.int('c', 0)
    if j is not None:
        S.assume(S.int('j1', 0, n - 1) == j)
    with clipped(S, m, k):
        v, used = m.simulated_annealing(list(items), c)
    S.observe(v, used)
    S.check(len(used) == n and all(u in (0, 1) for u in used), 'simulated_annealing: not a selection of the items')
    S.check(sum_f(items[i][1] for i in range(n) if used[i]) <= c, 'simulated_annealing: the selection is too heavy')
    S.check(sum_f(items[i][0] for i in range(n) if used[i]) == v, 'simulated_annealing: the selection does not have the reported value')


@harness('C04', t=150, quick=[dict(n=n, seed=s, j=j) for n, s, j in ((6, 1, 1), (7, 2, 1), (8, 3, 1), (9, 4, 1), (10, 5, 1), (12, 7, 1), (8, 3, 2))], thorough=[dict(n=n, seed=s, j=2) for n, s in ((8, 7), (10, 8), (9, 9), (8, 10))])
def larger(S, n, seed, j=2):
    """All items fixed but the values of j of them; a choice of capacities."""
    m = S.mod(K)
    r = random.Random(seed)
    sym = sorted(r.sample(range(n), j))
    items = [(S.int('v%d' % i, 0, 30) if i in sym else r.randint(1, 20), r.randint(1, 12)) for i in range(n)]
    W = sum(w for _, w in items)
    c = S.choice('c', [W // 3, W // 2, W - 1])
    rest = [items[i] for i in range(n) if i not in sym]
    best = [0] * (c + 1)
    for v, w in rest:
        best = [max(best[k], best[k - w] + v if k >= w else 0) for k in range(c + 1)]
    want = []
    for k in range(j + 1):
        for T in combinations(sym, k):
            left = c - sum(items[i][1] for i in T)
            if left >= 0:
                want.append(best[left] + sum_f(items[i][0] for i in T))
    f = S.choice('f', ['dynamic_programming', 'branch_and_bound_depth_first'])
    v, used = getattr(m, f)(list(items), c)
    S.observe(v, used)
    S.check(all_f(v >= x for x in want), f + ': a better selection exists')
    S.check(sum_f(u[1] for u in used) <= c, f + ': the selection is too heavy')
    S.check(sum_f(u[0] for u in used) == v, f + ': the selection does not have the reported value')
    left = list(items)
    for u in used:
        i = [k for k, x in enumerate(left) if x[1] == u[1] and (x[0] is u[0] or bool(x[0] == u[0]))]
        S.check(bool(i), f + ': the selection is not made of the items')
        del left[i[0]]
