"""Minimum spanning trees: edge weights stay symbolic, optimality is against every spanning forest at once."""
from itertools import combinations
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G05'] = dict(bounds='graphs of 6 to 11 vertices with fixed weights but for the listed number of symbolic ones; '
                          'the listed edge sets (or every edge set) on the listed number of vertices with arbitrary integer '
                          'weights of any sign (bounded where hi is given); every random choice of cheriton_tarjan; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
M = 'rosemary.graphs.algorithms.spanning_trees'


def comps(n, edges):
    c = {i: i for i in range(n)}
    for u, v in edges:
        a, b = c[u], c[v]
        if a != b:
            c = {k: (a if x == b else x) for k, x in c.items()}
    return c


def forests(n, edges):
    """All maximal spanning forests."""
    r = n - len(set(comps(n, edges).values()))
    return [T for T in combinations(sorted(edges), r) if n - len(set(comps(n, T).values())) == r]


def component(n, edges, root):
    c = comps(n, edges)
    vs = {v for v in range(n) if c[v] == c[root]}
    return [e for e in edges if e[0] in vs]


def optimal(S, W, trees, total, tree, what):
    S.check(isinstance(tree, list) and tuple(sorted(tree)) in trees, what + ': not a spanning tree of every component')
    S.check(total == sum_f(W[e] for e in tree), what + ': total is not the weight of the tree')
    S.check(all_f(total <= sum_f(W[e] for e in T) for T in trees), what + ': a lighter spanning tree exists')


def graph(S, n, edges, lo=None, hi=None):
    es = sym_edges(S, n) if edges == 'all' else [tuple(e) for e in edges]
    W = {e: S.int('w%d%d' % e, lo, hi) for e in es}
    return es, W, build(S, n, es, W)


K4 = pairs(4)
C4 = [[0, 1], [1, 2], [2, 3], [0, 3]]
C5 = [[0, 1], [1, 2], [2, 3], [3, 4], [0, 4]]
BOW = [[0, 1], [0, 2], [1, 2], [2, 3], [2, 4], [3, 4]]
SMALL = [dict(n=1, edges=[]), dict(n=2, edges='all'), dict(n=3, edges='all'), dict(n=4, edges=C4), dict(n=4, edges=[[0, 1], [2, 3]])]
MID = [dict(n=4, edges=K4[:5]), dict(n=5, edges=[[0, 1], [0, 2], [1, 2], [3, 4]]), dict(n=5, edges=C5)]
NAMED = named([dict(n=3, edges='all'), dict(n=4, edges=K4[:5]), dict(n=4, edges=C4), dict(n=4, edges=[[0, 1], [2, 3]])])
WHOLE = [dict(n=4, edges=K4), dict(n=5, edges=BOW)]


@harness('G05', t=400, quick=SMALL + MID + WHOLE + NAMED, thorough=[dict(n=4, edges='all'), dict(n=5, edges=pairs(5)[:7]), dict(n=6, edges=[[0, 1], [0, 2], [1, 2], [3, 4], [4, 5], [3, 5], [2, 3]])])
def prim(S, n, edges, labels=None):
    m = algs(S, M, labels, n)
    es, W, g = graph(S, n, edges)
    root = S.choice('root', ([] if labels else [None]) + list(range(n))[-2:])
    total, tree = m.prim(g, root)
    S.observe(total, tree)
    comp = component(n, es, root if root is not None else 0)
    optimal(S, W, forests(n, comp), total, tree, 'prim')
    total2, prev = m.prim(g, root, edge_list=False)
    S.check(total2 == total, 'prim: total differs without edge_list')
    S.check(sorted(prev) == list(range(n)), 'prim: predecessors of all vertices')
    S.check(prev[root if root is not None else 0] is None, 'prim: predecessor of the root')
    S.check(sorted((min(u, v), max(u, v)) for u, v in prev.items() if v is not None) == sorted(tree), 'prim: predecessors are not the tree')


@harness('G05', t=400, quick=SMALL + MID + [dict(n=4, edges=K4, lo=0, hi=2), dict(n=5, edges=BOW, lo=0, hi=2)] + NAMED, thorough=[dict(n=4, edges=K4), dict(n=5, edges=BOW), dict(n=4, edges='all', lo=-1, hi=1)])
def kruskal(S, n, edges, lo=None, hi=None, labels=None):
    m = algs(S, M, labels, n)
    es, W, g = graph(S, n, edges, lo, hi)
    total, tree = m.kruskal(g)
    S.observe(total, tree)
    optimal(S, W, forests(n, es), total, tree, 'kruskal')


@harness('G05', t=400, random='nondet', quick=SMALL + [dict(p, lo=0, hi=1) for p in NAMED] + [dict(n=4, edges=K4[:5], lo=0, hi=1), dict(n=5, edges=[[0, 1], [0, 2], [1, 2], [3, 4]], lo=0, hi=2)], thorough=[dict(n=4, edges=K4[:5]), dict(n=4, edges=K4, lo=0, hi=1)])
def cheriton_tarjan(S, n, edges, lo=None, hi=None, labels=None):
    m = algs(S, M, labels, n)
    es, W, g = graph(S, n, edges, lo, hi)
    total, tree = m.cheriton_tarjan(g)
    S.observe(total, tree)
    optimal(S, W, forests(n, es), total, tree, 'cheriton_tarjan')


@harness('G05', t=400, quick=[dict(n=1, edges=[]), dict(n=3, edges=[[0, 1]]), dict(n=4, edges=[[0, 1], [2, 3]]), dict(n=4, edges=pairs(3)), dict(n=2, edges=[[0, 1]]), dict(n=3, edges=[[0, 1], [1, 2]]), dict(n=3, edges=pairs(3)), dict(n=4, edges=C4), dict(n=4, edges=K4[:5], lo=0, hi=2), dict(n=4, edges=K4, lo=0, hi=1), dict(n=5, edges=C5, lo=0, hi=2), dict(n=5, edges=BOW, lo=0, hi=1)] + named([dict(n=3, edges=pairs(3)), dict(n=3, edges=[[0, 1], [1, 2]]), dict(n=3, edges=pairs(3)), dict(n=4, edges=C4, lo=0, hi=3)]),
         thorough=[dict(n=4, edges=K4[:5]), dict(n=4, edges=K4, lo=0, hi=2), dict(n=5, edges=BOW, lo=0, hi=2)])
def gabow(S, n, edges, lo=None, hi=None, labels=None):
    m = algs(S, M, labels, n)
    es, W, g = graph(S, n, edges, lo, hi)
    trees = forests(n, es) if len(set(comps(n, es).values())) == 1 else []
    out = list(m.gabow(g))
    S.observe(out)
    S.check(sorted(tuple(sorted(t)) for _, t in out) == trees, 'gabow: not every spanning tree exactly once')
    S.check(all_f(w == sum_f(W[e] for e in t) for w, t in out), 'gabow: weight of a tree')
    S.check(increasing([w for w, _ in out], strict=False), 'gabow: not in order of weight')
    for k in (1, 2, len(trees) + 1):
        S.check(len(list(m.gabow(g, k))) == min(k, len(trees)), 'gabow: number of trees asked for')


WQ = [dict(base=b, seed=1 + i % 4, k=2) for i, b in enumerate(SPARSE + ['c5c5', 'k7', 'groetzsch', 'k4k4'])] + [dict(base='triangles', seed=4, k=2, drop=5), dict(base='c9', seed=5, k=2, drop=3)]
WT = [dict(base=b, seed=s, k=4) for b in SPARSE + ['c5c5', 'k7', 'groetzsch', 'k4k4'] for s in (6, 7)] + [dict(base=b, seed=8, k=3, drop=6) for b in ('grid33', 'wheel7')]
WQ += [dict(base=b, seed=3, k=1) for b in LARGE]
WT += [dict(base=b, seed=4, k=3) for b in LARGE]
WQ += named([dict(base=b, seed=5, k=2) for b in ('moser', 'cube', 'tree9', 'octahedron')])
FS = ('kruskal', 'prim', 'cheriton_tarjan')


@harness('G05', t=200, random='seeded', quick=[dict(f=f, **p) for f in FS for p in WQ], thorough=[dict(f=f, **p) for f in FS for p in WT])
def larger(S, f, base, seed, k, drop=0, labels=None):
    """A spanning tree is minimal when no edge outside it is lighter than one on the path between its ends."""
    m = algs(S, M, labels, base=base)
    n, W = weights_of(S, base, seed, k, lo=None, hi=20, big=12, drop=drop)
    g = build(S, n, sorted(W), W)
    root = seed % n
    total, tree = m.prim(g, root) if f == 'prim' else getattr(m, f)(g)
    S.observe(total, tree)
    es = component(n, sorted(W), root) if f == 'prim' else sorted(W)
    S.check(len(set(tree)) == len(tree) and set(tree) <= set(es), f + ': not edges of the graph')
    paths = {e: tree_path(n, tree, *e) for e in es}
    S.check(len(tree) == n - len(set(comps(n, es).values())) and all(p is not None for p in paths.values()), f + ': not a spanning tree of every component')
    S.check(total == sum_f(W[e] for e in tree), f + ': total is not the weight of the tree')
    S.check(all_f(W[e] >= W[x] for e, p in paths.items() for x in p), f + ': a lighter spanning tree exists')
