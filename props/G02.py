"""Complements, matrices and graph families."""
from itertools import combinations
from math import gcd, comb
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G02'] = dict(bounds='every graph with the listed number of vertices; graphs of 6 to 20 vertices that differ from a fixed one in any subset of the listed number of pairs; every family index in the listed windows; random graphs '
                          'over every outcome of the random numbers')


@harness('G02', t=100, quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=5)])
def derived(S, n):
    es = sym_edges(S, n)
    ws = {e: S.int('w%d%d' % e) for e in es}
    g = build(S, n, es, ws)
    matrices(S, g, n, es)


@harness('G02', t=100, quick=bases(seeds=[1], k=3) + bases(LARGE, seeds=[1], k=2), thorough=bases(seeds=[2, 3], k=5) + bases(LARGE, seeds=[2, 3], k=4))
def derived_larger(S, **p):
    n, es = graph_of(S, **p)
    matrices(S, build(S, n, es), n, es)


def matrices(S, g, n, es):
    c = g.complement()
    S.check(c.vertices() == list(range(n)), 'complement: vertices')
    S.check(c.edges() == [p for p in pairs(n) if p not in es], 'complement: edges')
    S.check(g.edges() == es, 'complement: the original changed')
    a, d, l = g.adjacency_matrix(), g.degree_matrix(), g.laplacian_matrix()
    A = adj(n, es)
    R = range(n)
    S.check(all(a[i][j] == (j in A[i]) for i in R for j in R), 'adjacency_matrix')
    S.check(all(d[i][j] == (len(A[i]) if i == j else 0) for i in R for j in R), 'degree_matrix')
    S.check(all(l[i][j] == (len(A[i]) if i == j else -(j in A[i])) for i in R for j in R), 'laplacian_matrix')
    S.observe(c.edges())


@harness('G02', t=100, quick=[dict(N=12)], thorough=[dict(N=20)])
def families(S, N):
    m = S.mod(G)
    kind = S.choice('kind', ['complete', 'coprime', 'grid'])
    n = S.conc(S.int('n', 0 if kind != 'coprime' else 1, N))
    if kind == 'complete':
        g = m.complete_graph(n)
        S.check(g.vertices() == list(range(n)) and g.edges() == pairs(n), 'complete_graph')
    elif kind == 'coprime':
        g = m.coprime_pairs_graph(n)
        S.check(g.vertices() == list(range(1, n + 1)), 'coprime_pairs_graph: vertices')
        S.check(g.edges() == [(a, b) for a, b in combinations(range(1, n + 1), 2) if gcd(a, b) == 1], 'coprime_pairs_graph')
    else:
        g = m.grid_graph(n)
        S.check(g.vertices() == list(range(n * n)), 'grid_graph: vertices')
        S.check(g.edges() == [(a, b) for a, b in combinations(range(n * n), 2)
                              if abs(a // n - b // n) + abs(a % n - b % n) == 1], 'grid_graph: edges')
    S.observe(g.edges())


@harness('G02', t=150, quick=[dict(lo=1, hi=6)], thorough=[dict(lo=1, hi=6)])
def odd(S, lo, hi):
    m = S.mod(G)
    k = S.conc(S.int('k', lo, hi))
    g = m.odd_graph(k)
    vs = g.vertices()
    S.observe(len(vs))
    S.check(len(vs) == comb(2 * k - 1, k - 1), 'odd_graph: number of vertices')
    S.check(len(set().union(*map(set, vs))) <= 2 * k - 1 and all(len(set(v)) == len(v) == k - 1 for v in vs), 'odd_graph: vertices are not the subsets')
    if k <= 4:
        S.check(all((v in g[u]) == (not set(u) & set(v)) for u, v in combinations(vs, 2)), 'odd_graph: edges')
    S.check(k == 1 or all(g.degree(v) == k for v in vs), 'odd_graph: degrees')


@harness('G02', random='nondet', quick=[dict(n=n) for n in (0, 1, 2, 3, 4)], thorough=[dict(n=5)])
def randomised(S, n):
    m = S.mod(G)
    d = S.choice('d', [0.0, 0.25, 1.0])
    g = m.random_graph(n, d)
    S.check(g.vertices() == list(range(n)), 'random_graph: vertices')
    S.check(all(u < v < n for u, v in g.edges()), 'random_graph: edges')
    if d == 1:
        S.check(g.edges() == pairs(n), 'random_graph: probability 1')


@harness('G02')
def petersen(S):
    m = S.mod(G)
    g = m.petersen_graph()
    u, v = S.conc(S.int('u', 0, 9)), S.conc(S.int('v', 0, 9))
    S.check(g.vertices() == list(range(10)) and g.num_edges() == 15 and g.degree(u) == 3, 'petersen_graph: not cubic')
    # adjacent vertices have no common neighbour, others exactly one
    if u != v:
        S.check(len(g.neighbors(u) & g.neighbors(v)) == (0 if v in g[u] else 1), 'petersen_graph: girth')


@harness('G02', t=100, quick=[dict(fmt='plain', k=2), dict(fmt='dimacs', k=2)], thorough=[dict(fmt='plain', k=3), dict(fmt='dimacs', k=3)])
def loaded(S, fmt, k):
    """Files of k lines with symbolic end points, comments and headers in between."""
    import os
    import tempfile
    m = S.mod(G)
    lab = [1, 2, 10, 305]
    es, lines = [], []
    for i in range(k):
        u, v = S.choice('u%d' % i, lab), S.choice('v%d' % i, lab)
        S.assume(u != v)
        if fmt == 'dimacs' and S.bool('c%d' % i):
            lines.append(S.choice('l%d' % i, ['c e 1 2', 'p edge 10 3', 'c']))
        lines.append(('e ' if fmt == 'dimacs' else '') + '%d %d' % (u, v))
        es.append((min(u, v), max(u, v)))
    fd, path = tempfile.mkstemp()
    try:
        os.write(fd, ('\n'.join(lines) + ('\n' if S.bool('newline') else '')).encode())
        os.close(fd)
        g = (m.load_dimacs_graph if fmt == 'dimacs' else m.load_graph)(path)
    finally:
        os.unlink(path)
    S.observe(sorted(g.edges()))
    S.check(sorted(g.edges()) == sorted(set(es)), 'loaded graph: edges')
    S.check(sorted(g.vertices()) == sorted({x for e in es for x in e}), 'loaded graph: vertices')
