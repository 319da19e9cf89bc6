"""Traversals and connectivity."""
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G03'] = dict(bounds='graphs of 6 to 20 vertices that differ from a fixed one (Petersen, Groetzsch, cube, wheel, complete multipartite and others, relabelled) in any subset of the listed number of pairs; '
                          'every graph with the listed number of vertices, every start vertex and depth limit, two orders of '
                          'inserting the edges; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
A = 'rosemary.graphs.algorithms.'


def dists(n, A, s):
    d, front = {s: 0}, [s]
    while front:
        front = [v for u in front for v in sorted(A[u]) if v not in d and not d.update({v: d[u] + 1})]
    return d


GQ = [dict(n=n, fix='') for n in (1, 2, 3, 4)] + [dict(n=5, fix=f) for f in splits(3)] + [dict(n=6, fix=f) for f in splits(7)[5::13]] + bases(seeds=[1], k=4)
GQ += named([dict(n=4, fix='')] * 4 + bases(['petersen', 'grid33', 'tree9', 'triangles'], seeds=[3], k=4))
GQ += bases(LARGE, seeds=[1], k=2)
GT = [dict(n=5, fix=f) for f in splits(2)] + [dict(n=6, fix=f) for f in splits(7)] + bases(seeds=[2, 3], k=6) + bases(LARGE, seeds=[2, 3], k=4)


def make(S, **p):
    n, es = graph_of(S, **p)
    order = list(reversed(es)) if n < 5 and S.bool('rev') else es
    return n, es, build(S, n, order), adj(n, es)


@harness('G03', t=100, quick=GQ, thorough=GT)
def breadth_first(S, **p):
    m = algs(S, A + 'traversal', **p)
    n, es, g, A_ = make(S, **p)
    s = S.conc(S.int('s', 0, n - 1)) if n < 5 else 0
    d = dists(n, A_, s)
    order = list(m.breadth_first_search(g, s))
    S.check(sorted(order) == sorted(d), 'breadth_first_search: vertices')
    S.check(order[0] == s and all(d[a] <= d[b] for a, b in zip(order, order[1:])), 'breadth_first_search: order')
    # vertices come in the order of their first discovered neighbours
    par = {v: min(order.index(u) for u in A_[v] if d[u] == d[v] - 1) for v in order if v != s}
    S.check(all(par[a] <= par[b] for a, b in zip(order[1:], order[2:])), 'breadth_first_search: not breadth first')
    for k in range(n + 1):
        o = list(m.breadth_first_search(g, s, max_depth=k))
        S.check(sorted(o) == sorted(v for v in d if d[v] <= k), 'breadth_first_search: depth limit')
        S.check(o[0] == s and all(d[a] <= d[b] for a, b in zip(o, o[1:])), 'breadth_first_search: order with depth limit')
    t = m.breadth_first_search_tree(g, s)
    S.check(sorted(t) == sorted(d) and t[s] is None, 'breadth_first_search_tree: vertices')
    S.check(all(t[v] in A_[v] and d[t[v]] == d[v] - 1 for v in d if v != s), 'breadth_first_search_tree: parents')
    S.observe(order, sorted(t.items(), key=lambda e: e[0]))


def is_dfs(order, A_):
    """Every vertex hangs at the latest visited vertex that still has unvisited neighbours."""
    done = {order[0]}
    for i, v in enumerate(order[1:]):
        open_ = [u for u in order[:i + 1] if A_[u] - done]
        if not open_ or v not in A_[open_[-1]]:
            return False
        done.add(v)
    return True


@harness('G03', t=100, quick=GQ, thorough=GT)
def depth_first(S, **p):
    m = algs(S, A + 'traversal', **p)
    n, es, g, A_ = make(S, **p)
    s = S.conc(S.int('s', 0, n - 1)) if n < 5 else 0
    d = dists(n, A_, s)
    order = list(m.depth_first_search(g, s))
    S.check(sorted(order) == sorted(d), 'depth_first_search: vertices')
    S.check(order[0] == s and is_dfs(order, A_), 'depth_first_search: not depth first')
    for k in range(n + 1):
        o = list(m.depth_first_search(g, s, max_depth=k))
        S.check(o[0] == s and len(set(o)) == len(o), 'depth_first_search: repeated vertex with depth limit')
        S.check(all(v in d and d[v] <= k for v in o), 'depth_first_search: vertex beyond the depth limit')
        S.check(k < 1 or all(v in o for v in A_[s]), 'depth_first_search: neighbour of the start missing with depth limit')
        S.check(k < len(d) - 1 or sorted(o) == sorted(d), 'depth_first_search: depth limit that does not bind')
    t = m.depth_first_search_tree(g, s)
    S.check(sorted(t) == sorted(d) and t[s] is None, 'depth_first_search_tree: vertices')
    S.check(all(t[v] in A_[v] for v in d if v != s), 'depth_first_search_tree: parents')

    def up(v):
        out, k = [], 0
        while v is not None and k <= n:
            out.append(v)
            v, k = t[v], k + 1
        return out
    S.check(all(up(v)[-1] == s and len(up(v)) <= n for v in d), 'depth_first_search_tree: not a tree')
    S.check(all(u in up(v) or v in up(u) for u, v in es if u in d), 'depth_first_search_tree: cross edge')
    S.observe(order, sorted(t.items(), key=lambda e: e[0]))


@harness('G03', t=100, quick=GQ, thorough=GT)
def components(S, **p):
    m = algs(S, A + 'connectivity', **p)
    n, es, g, A_ = make(S, **p)
    comps = m.connected_components(g)
    want = {frozenset(dists(n, A_, u)) for u in range(n)}
    S.check(len(comps) == len(want) and {frozenset(c) for c in comps} == want, 'connected_components')
    S.check(sum(len(c) for c in comps) == n, 'connected_components: a vertex is repeated')
    S.check(m.is_connected(g) == (len(want) == 1), 'is_connected')
    for u in range(n):
        c = m.connected_component(g, u)
        S.check(sorted(c) == sorted(dists(n, A_, u)), 'connected_component')
    S.observe(sorted(sorted(c) for c in comps))


@harness('G03')
def empty(S):
    m = S.mod(A + 'connectivity')
    g = S.mod(G).Graph()
    S.check(m.is_connected(g) and m.connected_components(g) == [], 'graph without vertices')
