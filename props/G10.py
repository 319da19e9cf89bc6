"""Hamiltonian paths of every graph with the listed number of vertices."""
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G10'] = dict(bounds='graphs of 6 to 20 vertices that differ from a fixed one (Petersen, Groetzsch, cube, wheel, complete multipartite and others, relabelled) in any subset of the listed number of pairs; '
                          'every graph with the listed number of vertices (for the larger sizes: every graph that extends the '
                          'listed choice of the first edges); every shuffle up to three vertices, one per run beyond; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
M = 'rosemary.graphs.algorithms.hamiltonian_paths'


def paths(n, es):
    a = adj(n, es)
    out = []

    def go(p):
        if len(p) == n:
            out.append(p)
        for v in sorted(a[p[-1]] - set(p)):
            go(p + (v,))
    for v in range(n):
        go((v,))
    return out


ALL = [dict(n=n, fix='') for n in (1, 2, 3, 4)] + [dict(n=5, fix=f) for f in splits(4)]
LARGE = bases(['moser', 'octahedron', 'c7c', 'ladder', 'cube', 'star7', 'k4k4', 'path8', 'wheel7'], seeds=[1], k=4)
LARGER = bases(['moser', 'octahedron', 'c7c', 'ladder', 'cube', 'star7', 'k4k4', 'path8', 'wheel7', 'grid33', 'c9', 'tree9', 'triangles'], seeds=[2], k=4)
NAMED = named([dict(n=4, fix='')] * 4 + [dict(n=5, fix='')] + bases(['moser', 'ladder', 'octahedron'], seeds=[3], k=4))
FAR = bases(['path18', 'c17', 'star15', 'tree20', 'two', 'windmill', 'grid45'], seeds=[1], k=2)
SIX = [dict(n=6, fix=f) for f in splits(8)]


@harness('G10', t=200, quick=ALL + SIX[3::4] + LARGE + NAMED + FAR, thorough=SIX + LARGER)
def listing(S, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    want = paths(n, es)
    for f in ('hamiltonian_paths', 'hamiltonian_paths_con'):
        out = list(map(tuple, list(getattr(m, f)(g))))
        S.observe(out)
        S.check(sorted(out) == want, f + ': not every Hamiltonian path exactly once')
    S.check(m.number_of_hamiltonian_paths(g) == len(want), 'number_of_hamiltonian_paths')


@harness('G10', t=200, random='seeded', quick=ALL + SIX[1::4] + LARGE + NAMED, thorough=SIX + LARGER)
def counts(S, **p):
    m = algs(S, M, **p)
    n, es = graph_of(S, **p)
    g = build(S, n, es)
    want = len(paths(n, es))
    for f in ('number_of_hamiltonian_paths_bits', 'number_of_hamiltonian_paths_bits_con', 'number_of_hamiltonian_paths5', 'number_of_hamiltonian_paths5_con'):
        S.check(getattr(m, f)(g) == want, f)


@harness('G10', t=200, random='nondet', quick=[dict(n=n, fix='') for n in (1, 2, 3)], thorough=[dict(n=4, fix=f) for f in splits(4)])
def shuffled(S, n, fix):
    m = S.mod(M)
    es = sym_edges(S, n, fix)
    g = build(S, n, es)
    want = len(paths(n, es))
    f = S.choice('f', ['number_of_hamiltonian_paths_bits', 'number_of_hamiltonian_paths_bits_con'])
    S.check(getattr(m, f)(g) == want, f)


@harness('G10', t=200, quick=[dict(n=n, k=k) for n in (1, 2, 3) for k in (0, 1, 2, 3)] + [dict(n=4, k=4)], thorough=[dict(n=4, k=k) for k in (2, 5)])
def walk_counts(S, n, k):
    """Walks of k steps inside a set of allowed vertices."""
    m = S.mod(M)
    es = sym_edges(S, n)
    g = build(S, n, es)
    allowed = {v for v in range(1, n) if S.bool('a%d' % v)} | {0}
    a = adj(n, es)
    cnt = {v: int(v == 0) for v in allowed}
    for _ in range(k):
        cnt = {v: sum(cnt[u] for u in a[v] & allowed) for v in allowed}
    S.check(dict(m.walks(g, 0, k, set(allowed))) == cnt, 'walks')
    S.check(m.is_connected2(g, set(allowed)) == connected(a, allowed), 'is_connected2')


def connected(a, vs):
    seen = {min(vs)}
    for _ in vs:
        seen |= {v for u in seen for v in a[u] & vs}
    return seen == vs
