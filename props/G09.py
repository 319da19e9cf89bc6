"""Independent sets of every graph with the listed number of vertices."""
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G09'] = dict(bounds='graphs of 6 to 20 vertices that differ from a fixed one (Petersen, Groetzsch, cube, wheel, complete multipartite and others, relabelled) in any subset of the listed number of pairs; '
                          'every graph with the listed number of vertices (for the larger sizes: every graph that extends the '
                          'listed choice of the first edges); every random choice of the greedy method; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
M = 'rosemary.graphs.algorithms.independent_sets'


def independent(n, es):
    return set(stable_sets(n, es)[0])


def maximal(n, es):
    return sorted(stable_sets(n, es)[1])


ALL = [dict(n=n, fix='') for n in (1, 2, 3, 4)] + [dict(n=5, fix=f) for f in splits(3)]
SIX = [dict(n=6, fix=f) for f in splits(6)]
NAMED = named([dict(n=4, fix='')] * 4 + [dict(n=5, fix='')] + bases(['moser', 'path8', 'octahedron', 'k4k4'], seeds=[3], k=4))
SEVEN = [dict(n=7, fix=f) for f in splits(12)[21::29]]


@harness('G09', t=200, quick=ALL + SIX + NAMED + bases(k=4) + bases(sorted(set(LARGE) - {'star15', 'k6,10', 'tree20'}), seeds=[1], k=2), thorough=SEVEN + bases(seeds=range(2, 6)))
def exact(S, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    cs, top = independent(n, es), maximal(n, es)
    best = max(map(len, cs))
    for f in ('branch_and_bound', 'maximum_independent_set'):
        k, c = getattr(m, f)(g)
        S.observe(k, list(c))
        S.check(tuple(sorted(c)) in cs, f + ': not independent')
        S.check(k == len(c), f + ': size is not the length')
        S.check(k == best, f + ': a larger independent set exists')
    out = list(m.maximal_independent_sets(g))
    S.check(sorted(tuple(sorted(c)) for c in out) == top, 'maximal_independent_sets: not every maximal set exactly once')
    k, c = m.culberson(g)
    S.check(tuple(sorted(c)) in top and k == len(c), 'culberson: not a maximal independent set')
    S.check(sorted(seen_as(S, g.edges())) == sorted(es) and sorted(seen_as(S, g.vertices())) == list(range(n)), 'independent sets: the graph was changed')


@harness('G09', t=200, random='nondet', quick=[dict(n=n, fix='') for n in (1, 2, 3)] + [dict(n=4, fix=f) for f in splits(2)] + named([dict(n=3, fix='')] * 4), thorough=[dict(n=5, fix=f) for f in splits(5)[1::2]])
def greedy(S, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    k, c = m.greedy(g)
    S.observe(k, list(c))
    S.check(list(c) == sorted(c) and tuple(c) in maximal(n, es) and k == len(c), 'greedy: not a maximal independent set')
    S.check(sorted(seen_as(S, g.edges())) == sorted(es) and sorted(seen_as(S, g.vertices())) == list(range(n)), 'greedy: the graph was changed')
