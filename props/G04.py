"""Shortest paths: edge weights stay symbolic, optimality is over all simple paths at once."""
from itertools import permutations
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G04'] = dict(bounds='graphs of 6 to 11 vertices with fixed weights but for the listed number of symbolic ones; '
                          'the listed edge sets (or every edge set) on the listed number of vertices with arbitrary '
                          'non-negative integer weights (bounded for the bucket method, any sign for the methods that '
                          'admit it), every pair of end points; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
M = 'rosemary.graphs.algorithms.paths'
INF = float('inf')


def walks(n, A, s, t):
    """All simple paths from s to t."""
    out = []

    def go(p):
        if p[-1] == t:
            out.append(p)
            return
        for v in sorted(A[p[-1]]):
            if v not in p:
                go(p + [v])
    go([s])
    return out


def plen(W, p):
    return sum_f(W[min(a, b), max(a, b)] for a, b in zip(p, p[1:]))


def shortest(S, W, n, A, s, t, d, what):
    ps = walks(n, A, s, t)
    if not ps:
        S.check(d == INF, what + ': distance to an unreachable vertex')
        return
    S.check(all_f(d <= plen(W, p) for p in ps), what + ': a shorter path exists')
    S.check(any_f(d == plen(W, p) for p in ps), what + ': no path has this length')


def tree(S, W, A, s, prev, dist, reach, what):
    for v in reach:
        if v == s:
            S.check(prev[v] is None, what + ': parent of the root')
            continue
        u = prev[v]
        S.check(u in A[v], what + ': parent is not a neighbour')
        S.check(dist[v] == dist[u] + W[min(u, v), max(u, v)], what + ': parent is not on a shortest path')
    # following parents ends in the root
    for v in reach:
        k = 0
        while prev[v] is not None and k <= len(reach):
            v, k = prev[v], k + 1
        S.check(v == s, what + ': parents do not lead to the root')


def graph(S, n, edges, hi=None, lo=0):
    es = sym_edges(S, n) if edges == 'all' else [tuple(e) for e in edges]
    W = {e: S.int('w%d%d' % e, lo, hi) for e in es}
    return es, W, build(S, n, es, W), adj(n, es)


K4 = pairs(4)
SHAPES = [dict(n=1, edges=[]), dict(n=2, edges='all'), dict(n=3, edges='all'),
          dict(n=4, edges=K4[:5]), dict(n=4, edges=[[0, 1], [1, 2], [2, 3], [0, 3]]), dict(n=4, edges=[[0, 1], [0, 2], [1, 2]]),
          dict(n=5, edges=[[0, 1], [1, 4], [0, 2], [2, 4], [1, 2]]), dict(n=5, edges=[[0, 1], [1, 2], [2, 3], [3, 4], [0, 4]])]
BIG = [dict(n=4, edges='all'), dict(n=4, edges=K4), dict(n=5, edges=[[0, 1], [1, 4], [0, 2], [2, 4], [1, 2], [0, 3], [3, 4]]), dict(n=6, edges=[[0, 1], [1, 2], [2, 5], [0, 3], [3, 4], [4, 5], [1, 4]])]
HUGE = [dict(n=5, edges=pairs(5)[:8]), dict(n=6, edges=[[0, 1], [1, 2], [2, 5], [0, 3], [3, 4], [4, 5], [1, 4], [0, 2]]), dict(n=7, edges=[[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [5, 6], [0, 6], [1, 5]])]
NAMED = named([dict(n=3, edges='all'), dict(n=4, edges=K4[:5]), dict(n=4, edges=[[0, 1], [1, 2], [2, 3], [0, 3]]), dict(n=4, edges=[[0, 1], [0, 2], [1, 2]])])
SOURCE = ['dijkstra', 'dijkstra_pairing_heap', 'bellman_ford']


@harness('G04', t=400, quick=[dict(f=f, **p) for f in SOURCE for p in SHAPES + BIG + NAMED], thorough=[dict(f=f, **p) for f in SOURCE for p in HUGE])
def source(S, f, n, edges, labels=None):
    m = algs(S, M, labels, n)
    es, W, g, A = graph(S, n, edges)
    s = S.choice('s', [0, n - 1]) if n > 2 else 0
    dist, prev = getattr(m, f)(g, s)
    S.observe(dist, prev)
    S.check(sorted(dist) == list(range(n)), f + ': vertices')
    for t in range(n):
        shortest(S, W, n, A, s, t, dist[t], f)
    tree(S, W, A, s, prev, dist, [t for t in range(n) if walks(n, A, s, t)], f)


@harness('G04', t=400, quick=[dict(hi=2, **p) for p in SHAPES[:3]] + [dict(hi=2, n=4, edges=[[0, 1], [1, 2], [2, 3], [0, 3]]), dict(hi=1, n=4, edges=K4[:5]), dict(hi=5, n=3, edges=[[0, 1], [1, 2], [0, 2]]), dict(hi=3, n=4, edges=[[0, 1], [1, 2], [2, 3], [0, 3]]), dict(hi=2, n=4, edges=K4[:5])] + [dict(hi=1, **p) for p in NAMED],
         thorough=[dict(hi=7, n=4, edges=[[0, 1], [1, 2], [2, 3], [0, 3]]), dict(hi=3, n=4, edges=K4), dict(hi=2, n=5, edges=pairs(5)[:7])])
def buckets(S, n, edges, hi, labels=None):
    m = algs(S, M, labels, n)
    es, W, g, A = graph(S, n, edges, hi)
    dist, prev = m.dijkstra_buckets(g, 0)
    S.observe(dist, prev)
    for t in range(n):
        shortest(S, W, n, A, 0, t, dist[t], 'dijkstra_buckets')
    tree(S, W, A, 0, prev, dist, [t for t in range(n) if walks(n, A, 0, t)], 'dijkstra_buckets')


@harness('G04', t=400, quick=SHAPES + BIG + NAMED, thorough=HUGE)
def iterator(S, n, edges, labels=None):
    m = algs(S, M, labels, n)
    es, W, g, A = graph(S, n, edges)
    out = list(m.dijkstra_iterator(g, 0))
    S.observe(out)
    S.check(sorted(u for u, _, _ in out) == [t for t in range(n) if walks(n, A, 0, t)], 'dijkstra_iterator: vertices')
    S.check(increasing([d for _, d, _ in out], strict=False), 'dijkstra_iterator: not in order of distance')
    for u, d, p in out:
        shortest(S, W, n, A, 0, u, d, 'dijkstra_iterator')
        S.check(p in walks(n, A, 0, u) and plen(W, p) == d, 'dijkstra_iterator: path')


@harness('G04', t=400, quick=SHAPES + BIG + NAMED, thorough=HUGE)
def bidirectional(S, n, edges, labels=None):
    m = algs(S, M, labels, n)
    es, W, g, A = graph(S, n, edges)
    s, t = S.choice('s', [0, 1][:n]), S.choice('t', sorted({0, n - 1}))
    out = m.dijkstra_bidirectional(g, s, t)
    d, p = out if walks(n, A, s, t) else (out, [])
    S.observe(d, p)
    shortest(S, W, n, A, s, t, d, 'dijkstra_bidirectional')
    if walks(n, A, s, t):
        S.check(p in walks(n, A, s, t) and plen(W, p) == d, 'dijkstra_bidirectional: path')


@harness('G04', t=400, quick=[dict(n=1, edges=[]), dict(n=2, edges='all'), dict(n=3, edges='all'), dict(n=4, edges=[[0, 1], [1, 2], [2, 3]]), dict(n=4, edges=[[0, 1], [1, 2], [2, 3], [0, 3]]), dict(n=4, edges=[[0, 1], [0, 2], [1, 2]]), dict(n=4, edges=K4[:5])] + NAMED,
         thorough=[dict(n=4, edges='all'), dict(n=5, edges=[[0, 1], [1, 2], [2, 3], [3, 4], [0, 4]])])
def all_pairs(S, n, edges, labels=None):
    m = algs(S, M, labels, n)
    es, W, g, A = graph(S, n, edges)
    dist, pred = m.floyd_warshall(g)
    S.observe(dist, pred)
    for s in range(n):
        for t in range(n):
            shortest(S, W, n, A, s, t, dist[s, t], 'floyd_warshall')
        tree(S, W, A, s, {t: pred[s, t] for t in range(n)}, {t: dist[s, t] for t in range(n)},
             [t for t in range(n) if walks(n, A, s, t)], 'floyd_warshall')


@harness('G04', t=400, quick=[dict(n=2, edges='all'), dict(n=3, edges='all'), dict(n=4, edges=[[0, 1], [1, 2], [2, 3]])], thorough=[dict(n=4, edges=[[0, 1], [1, 2], [2, 3], [0, 3]])])
def negative(S, n, edges):
    """A negative edge is a negative cycle here, because the edges have no direction."""
    m = S.mod(M)
    es, W, g, A = graph(S, n, edges, lo=None)
    S.assume(any_f(w < 0 for w in W.values()))
    reach = [e for e in es if walks(n, A, 0, e[0])]
    S.raises(ValueError, m.floyd_warshall, g, label='floyd_warshall: negative cycle not reported')
    if any_f(W[e] < 0 for e in reach):
        S.raises(ValueError, m.bellman_ford, g, 0, label='bellman_ford: negative cycle not reported')


@harness('G04')
def missing(S):
    m = S.mod(M)
    es, W, g, A = graph(S, 2, 'all', 3)
    for f in SOURCE + ['dijkstra_buckets']:
        S.raises(ValueError, getattr(m, f), g, 7, label=f + ': start is not a vertex')
    S.raises(ValueError, lambda: list(m.dijkstra_iterator(g, 7)), label='dijkstra_iterator: start is not a vertex')
    S.raises(ValueError, m.dijkstra_bidirectional, g, 7, 0, label='dijkstra_bidirectional: start is not a vertex')
    S.raises(ValueError, m.dijkstra_bidirectional, g, 0, 7, label='dijkstra_bidirectional: end is not a vertex')


WQ = [dict(base=b, seed=1 + i % 4, k=2) for i, b in enumerate(SPARSE + ['c5c5', 'k7', 'groetzsch', 'k4k4'])] + [dict(base='triangles', seed=4, k=2, drop=5)]
WT = [dict(base=b, seed=s, k=4) for b in SPARSE + ['c5c5', 'k7', 'groetzsch', 'k4k4'] for s in (6, 7)] + [dict(base=b, seed=8, k=4, drop=4) for b in ('grid33', 'wheel7')]
WQ += [dict(base=b, seed=3, k=1) for b in LARGE]
WT += [dict(base=b, seed=4, k=3) for b in LARGE]
WQ += named([dict(base=b, seed=5, k=2) for b in ('moser', 'cube', 'tree9', 'octahedron')])
ALGS = SOURCE + ['dijkstra_buckets', 'dijkstra_iterator', 'dijkstra_bidirectional']


@harness('G04', t=200, quick=[dict(f=f, **p) for f in ALGS for p in WQ], thorough=[dict(f=f, **p) for f in ALGS for p in WT])
def larger(S, f, base, seed, k, drop=0, labels=None):
    """Distances are certified: no edge shortens one, and the parents attain them."""
    m = algs(S, M, labels, base=base)
    n, W = weights_of(S, base, seed, 1 if f == 'dijkstra_buckets' else k, hi=20, drop=drop)
    g, A = build(S, n, sorted(W), W), adj(n, W)
    s = seed % n
    comp = [v for v in range(n) if reachable(A, s, v)]

    def certified(d):
        S.check(d[s] == 0 and all_f(d[v] <= d[u] + w for e, w in W.items() for u, v in (e, e[::-1]) if u in comp), f + ': a shorter path exists')

    def path(p, t, d):
        S.check(p[0] == s and p[-1] == t and all(b in A[a] for a, b in zip(p, p[1:])) and plen(W, p) == d, f + ': path')

    if f == 'dijkstra_iterator':
        out = list(m.dijkstra_iterator(g, s))
        S.check(sorted(u for u, _, _ in out) == comp, f + ': vertices')
        S.check(increasing([d for _, d, _ in out], strict=False), f + ': not in order of distance')
        certified({u: d for u, d, _ in out})
        for u, d, p in out:
            path(p, u, d)
    elif f == 'dijkstra_bidirectional':
        d = {s: 0}
        t = S.choice('t', [v for v in range(n) if v != s][::3])
        o = m.dijkstra_bidirectional(g, s, t)
        if t not in comp:
            S.check(o == INF, f + ': distance to an unreachable vertex')
            return
        d, p = o
        path(p, t, d)
        S.check(d == distance(W, n, s, t), f + ': a shorter path exists')
    else:
        dist, prev = getattr(m, f)(g, s)
        S.observe(dist, prev)
        S.check(sorted(dist) == list(range(n)) and all(dist[v] == INF for v in range(n) if v not in comp), f + ': vertices')
        certified(dist)
        tree(S, W, A, s, prev, dist, comp, f)


def distance(W, n, s, t):
    """The distance as a formula: fixed edges first, then the symbolic ones one at a time."""
    BIG_ = 10**6
    D = {(u, v): 0 if u == v else BIG_ for u in range(n) for v in range(n)}
    sym = []
    for (u, v), w in sorted(W.items()):
        if isinstance(w, int):
            D[u, v] = D[v, u] = min(D[u, v], w)
        else:
            sym.append((u, v, w))
    for c in range(n):
        for a in range(n):
            for b in range(n):
                D[a, b] = min(D[a, b], D[a, c] + D[c, b])
    for u, v, w in sym:
        D = {(a, b): min_f([D[a, b], D[a, u] + w + D[v, b], D[a, v] + w + D[u, b]]) for a, b in D}
    return D[s, t]


def reachable(A, s, t):
    seen = {s}
    for _ in A:
        seen |= {v for u in seen for v in A[u]}
    return t in seen


@harness('G04', t=200, quick=[dict(base=b, seed=1, k=2) for b in ('ladder', 'moser', 'octahedron', 'tree9')], thorough=[dict(base=b, seed=2, k=3) for b in SPARSE])
def larger_all_pairs(S, base, seed, k):
    m = S.mod(M)
    n, W = weights_of(S, base, seed, k, hi=20)
    g, A = build(S, n, sorted(W), W), adj(n, W)
    dist, pred = m.floyd_warshall(g)
    S.observe(dist, pred)
    for s in range(n):
        S.check(dist[s, s] == 0 and all_f(dist[s, v] <= dist[s, u] + w for e, w in W.items() for u, v in (e, e[::-1])), 'floyd_warshall: a shorter path exists')
        tree(S, W, A, s, {t: pred[s, t] for t in range(n)}, {t: dist[s, t] for t in range(n)}, list(range(n)), 'floyd_warshall')


@harness('G04', quick=[dict(n=3)], thorough=[dict(n=4)])
def fractional_weights(S, n):
    """The bucket method refuses weights that are not whole, where it meets one."""
    m = S.mod(M)
    g = S.mod("rosemary.graphs.graphs").Graph()
    i = S.conc(S.int('i', 0, n - 2))
    for k in range(n - 1):
        g.add_edge(k, k + 1, 1.5 if k == i else 2)
    S.raises(ValueError, m.dijkstra_buckets, g, S.conc(S.int('s', 0, n - 1)), label='dijkstra_buckets with a fractional weight')
