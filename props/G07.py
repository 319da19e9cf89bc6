"""Vertex colorings of every graph with the listed number of vertices."""
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G07'] = dict(bounds='graphs of 6 to 20 vertices that differ from a fixed one (Petersen, Groetzsch, cube, wheel, complete multipartite and others, relabelled) in any subset of the listed number of pairs; '
                          'every graph with the listed number of vertices (for the larger sizes: every graph that extends the '
                          'listed choice of the first edges); limits of maxis up to the number of vertices; every random choice; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
M = 'rosemary.graphs.algorithms.coloring'
A = splits(3)


def proper(S, n, es, k, c, classes, what):
    if classes:
        S.check(len(c) == k and all(list(q) for q in c), what + ': number of classes')
        S.check(sorted(v for q in c for v in q) == list(range(n)), what + ': classes are not a partition of the vertices')
        c = {v: i for i, q in enumerate(c) for v in q}
    else:
        S.check(sorted(c) == list(range(n)), what + ': not every vertex has a color')
        S.check(len(set(c.values())) == k, what + ': number of colors')
    S.check(all(c[u] != c[v] for u, v in es), what + ': adjacent vertices share a color')


def chromatic(n, es):
    """Colorings in restricted growth form."""
    a = adj(n, es)

    def go(i, c, k, best):
        if k >= best:
            return best
        if i == n:
            return k
        for j in range(k + 1):
            if all(c[v] != j for v in a[i] if v < i):
                best = go(i + 1, c + [j], max(k, j + 1), best)
        return best
    return go(0, [], 0, n + 1)


ALL = [dict(n=n, fix='') for n in (1, 2, 3, 4)] + [dict(n=5, fix=f) for f in splits(2)]
SIX = [dict(n=6, fix=f) for f in splits(6)] + named([dict(n=4, fix='')] * 4 + [dict(n=5, fix='')] + bases(['moser', 'c7c', 'groetzsch', 'wheel7'], seeds=[3], k=4))
SEVEN = [dict(n=7, fix=f) for f in splits(12)[77::31]]


@harness('G07', t=200, quick=ALL + SIX + bases(k=4) + bases(LARGE, seeds=[1, 2], k=2), thorough=SEVEN + bases(seeds=range(2, 6)) + bases(LARGE, seeds=[2, 3], k=4))
def heuristics(S, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    S.observe(m.dsatur(g), m.greedy_sequential(g))
    for f, kw in [('dsatur', {}), ('greedy_sequential', {}), ('greedy_sequential', dict(passes=2))]:
        for cl in (True, False):
            k, c = getattr(m, f)(g, classes=cl, **kw)
            proper(S, n, es, k, c, cl, f)
    order = list(range(n))[::-1]
    k, c = m.greedy_sequential(g, vertices=list(order))
    proper(S, n, es, k, c, True, 'greedy_sequential')
    # the given order is respected: every vertex gets the least color its earlier neighbours leave free
    k, c = m.greedy_sequential(g, vertices=list(order), classes=False)
    a, want = adj(n, es), {}
    for v in order:
        want[v] = min(j for j in range(n) if all(want.get(u) != j for u in a[v]))
    S.check(dict(c) == want, 'greedy_sequential: not the least free color in the given order')
    k1 = m.greedy_sequential(g)[0]
    S.check(m.greedy_sequential(g, passes=2)[0] <= k1, 'greedy_sequential: a second pass needs more colors')
    S.check(all(k <= max(map(len, a.values())) + 1 for k in (k1, m.dsatur(g)[0])), 'greedy coloring: more than the largest degree plus one colors')


@harness('G07', t=200, quick=[dict(f=f, **p) for f in ('branch_and_bound', 'korman') for p in ALL + SIX + bases(seeds=range(3), k=4) + bases(LARGE, seeds=[1], k=2)] + [dict(f='exact_coloring', **p) for p in ALL[:4]],
         thorough=[dict(f=f, **p) for f in ('branch_and_bound', 'korman') for p in SEVEN + bases(seeds=range(3, 9), k=6)])
def exact(S, f, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    k, c = getattr(m, f)(g)
    S.observe(k, c)
    proper(S, n, es, k, c, True, f)
    S.check(k == chromatic(n, es), f + ': not the least number of colors')
    k2, c2 = getattr(m, f)(g, classes=False)
    S.check(k2 == k, f + ': number of colors differs without classes')
    proper(S, n, es, k2, c2, False, f)


@harness('G07', t=200, random='nondet', quick=[dict(n=n, fix='') for n in (1, 2, 3)] + [dict(n=4, fix=f) for f in splits(2)], thorough=[dict(n=5, fix=f) for f in splits(8)[5::9]] + named([dict(n=3, fix='')] * 4))
def peel(S, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    cl = S.choice('color_limit', list(range(n)))
    ml = S.choice('mis_limit', [0, cl + 1, n])
    gr = S.choice('use_greedy', [False, True] if ml < n else [False])
    k, c = m.maxis(g, color_limit=cl, mis_limit=ml, use_greedy=gr)
    S.observe(k)
    proper(S, n, es, k, c, True, 'maxis')
    if n < 4:
        k, c = m.maxis(g, classes=False, color_limit=cl, mis_limit=ml, use_greedy=gr)
        proper(S, n, es, k, c, False, 'maxis')
    S.check(sorted(seen_as(S, g.edges())) == sorted(es) and sorted(seen_as(S, g.vertices())) == list(range(n)), 'maxis: the graph was changed')
