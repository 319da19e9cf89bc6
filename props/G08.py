"""Cliques of every graph with the listed number of vertices; clique weights stay symbolic."""
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G08'] = dict(bounds='graphs of 6 to 20 vertices that differ from a fixed one (Petersen, Groetzsch, cube, wheel, complete multipartite and others, relabelled) in any subset of the listed number of pairs; '
                          'every graph with the listed number of vertices (for the larger sizes: every graph that extends the '
                          'listed choice of the first edges); vertex weights are arbitrary non-negative integers; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
M = 'rosemary.graphs.algorithms.cliques'


def cliques(n, es):
    E = set(es)
    return stable_sets(n, [p for p in pairs(n) if p not in E])[0][1:]


def maximal(n, es):
    E = set(es)
    return sorted(stable_sets(n, [p for p in pairs(n) if p not in E])[1])


ALL = [dict(n=n, fix='') for n in (1, 2, 3, 4)] + [dict(n=5, fix=f) for f in splits(3)]
SIX = [dict(n=6, fix=f) for f in splits(6)]
NAMED = named([dict(n=4, fix='')] * 4 + [dict(n=5, fix='')] + bases(['moser', 'c7c', 'octahedron', 'k4k4'], seeds=[3], k=4))
SEVEN = [dict(n=7, fix=f) for f in splits(12)[33::31]]


@harness('G08', t=200, quick=ALL + SIX + NAMED + bases(k=4) + bases(LARGE, seeds=[1], k=2), thorough=SEVEN + bases(seeds=range(2, 6)))
def listing(S, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    want = maximal(n, es)
    for alg in (None, 'tomita', 'bron_kerbosch', 'bron_kerbosch_binary'):
        out = list(m.maximal_cliques(g) if alg is None else m.maximal_cliques(g, alg))
        if alg is None:
            S.observe(out)
        S.check(sorted(tuple(sorted(c)) for c in out) == want, (alg or 'maximal_cliques') + ': not every maximal clique exactly once')


FS = ['pardalos', 'pardalos_binary', 'ostergard', 'ostergard_binary']


@harness('G08', t=200, quick=[dict(fs=fs, **p) for fs in (FS[:2], FS[2:]) for p in ALL + SIX + NAMED + bases(k=4) + bases(LARGE, seeds=[1], k=2)], thorough=[dict(fs=fs, **p) for fs in (FS[:2], FS[2:]) for p in SEVEN + bases(seeds=range(2, 6), k=6)])
def largest(S, fs, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    cs = cliques(n, es)
    best = max(map(len, cs))
    calls = [(f, getattr(m, f), ()) for f in fs] + [('maximum_clique', m.maximum_clique, (a,) if a else ()) for a in (None, 'ostergard', 'pardalos')][:3 if n < 5 else 0]
    for name, f, a in calls:
        k, c = f(g, *a)
        S.observe(k, list(c))
        S.check(tuple(sorted(c)) in cs, name + ': not a clique')
        S.check(k == len(c), name + ': size is not the length')
        S.check(k == best, name + ': a larger clique exists')


C5 = [[0, 1], [1, 2], [2, 3], [3, 4], [0, 4]]
BOW = [[0, 1], [0, 2], [1, 2], [2, 3], [2, 4], [3, 4]]


@harness('G08', t=400, quick=[dict(n=n, edges='all') for n in (1, 2, 3)] + [dict(n=4, edges=pairs(4)), dict(n=4, edges=[[0, 1], [0, 2], [1, 2]]), dict(n=4, edges=[]), dict(n=4, edges=[[0, 1], [2, 3]]), dict(n=4, edges=[[0, 1], [1, 2], [2, 3]]), dict(n=4, edges='all', hi=1), dict(n=5, edges=BOW, hi=2), dict(n=5, edges=C5, hi=2)] + named([dict(n=3, edges='all'), dict(n=4, edges=[[0, 1], [0, 2], [1, 2]]), dict(n=3, edges='all'), dict(n=4, edges=[[0, 1], [1, 2], [2, 3]])]),
         thorough=[dict(n=4, edges='all', hi=2), dict(n=4, edges=pairs(4)[:5]), dict(n=5, edges=BOW, hi=3), dict(n=5, edges=C5)])
def weighted(S, n, edges, hi=None, labels=None):
    m = algs(S, M, labels, n)
    es = sym_edges(S, n) if edges == 'all' else [tuple(e) for e in edges]
    g = build(S, n, es)
    w = {v: S.int('w%d' % v, 0, hi) for v in range(n)}
    k, c = m.maximum_weight_clique(g, dict(w))
    S.observe(k, list(c))
    cs = cliques(n, es) + [()]
    S.check(tuple(sorted(c)) in cs, 'maximum_weight_clique: not a clique')
    S.check(k == sum_f(w[v] for v in c), 'maximum_weight_clique: not the weight of the clique')
    S.check(all_f(k >= sum_f(w[v] for v in T) for T in cs), 'maximum_weight_clique: a heavier clique exists')


@harness('G08', t=200, quick=[dict(n=n, fix='') for n in (1, 2, 3, 4)] + [dict(n=5, fix=f) for f in splits(2)] + bases(seeds=[2], k=3), thorough=SIX[4::9] + bases(seeds=range(3, 6), k=5))
def labels_as_weights(S, **p):
    m = S.mod(M)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    k, c = m.maximum_weight_clique(g)
    S.observe(k, list(c))
    cs = cliques(n, es) + [()]
    S.check(tuple(sorted(c)) in cs and k == sum(c), 'maximum_weight_clique: not a clique of this weight')
    S.check(all(k >= sum(T) for T in cs), 'maximum_weight_clique: a heavier clique exists')
