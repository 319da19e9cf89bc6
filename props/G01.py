"""Graph construction, mutation and queries against a model of sets of weighted edges."""
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G01'] = dict(bounds='every history of the listed number of operations from every graph with the listed number of '
                          'vertices; edge weights are arbitrary integers; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')


class Model:
    def __init__(self, vs=(), es=None):
        self.v, self.e = set(vs), dict(es or {})

    def copy(self):
        return Model(self.v, self.e)

    def add(self, u, v, w):
        self.v |= {u, v}
        self.e[frozenset((u, v))] = w

    def cut(self, us):
        self.v -= set(us)
        self.e = {k: w for k, w in self.e.items() if not k & set(us)}

    def drop(self, u, v):
        self.e.pop(frozenset((u, v)), None)

    def nb(self, u):
        return {v for v in self.v if v != u and frozenset((u, v)) in self.e}


def same(S, g, m, what):
    S.check(set(g) == m.v and g.vertex_set() == m.v and g.num_vertices() == len(m.v), what + ': vertices')
    for u in m.v:
        S.check(g.neighbors(u) == m.nb(u), what + ': neighbours')
        S.check(all_f(g[u][v] == m.e[frozenset((u, v))] for v in m.nb(u)), what + ': weights')


def queries(S, g, m):
    vs = sorted(m.v)
    es = sorted(tuple(sorted(k)) for k in m.e)
    deg = {u: len(m.nb(u)) for u in vs}
    S.check(g.vertices() == vs and g.vertices(reverse=True) == vs[::-1], 'vertices')
    S.check(g.edges() == es and g.edge_set() == set(es) and g.num_edges() == len(es), 'edges')
    we = g.edges(weights=True)
    S.check([t[:2] for t in we] == es and all_f(t[2] == m.e[frozenset(t[:2])] for t in we), 'weighted edges')
    S.check(all(g.degree(u) == deg[u] and g.neighborhood(u) == m.nb(u) and g.closed_neighborhood(u) == m.nb(u) | {u} for u in vs), 'degree and neighbourhoods')
    S.check(g.total_degree() == 2 * len(es) and all(g.total_degree(vs[:k]) == sum(deg[u] for u in vs[:k]) for k in range(3)), 'total_degree')
    S.check(g.leaves() == {u for u in vs if deg[u] == 1}, 'leaves')
    if vs:
        hi, lo = max(deg.values()), min(deg.values())
        S.check(g.maximum_degree() == hi and deg[g.maximum_degree_vertex()] == hi, 'maximum_degree')
        S.check(g.minimum_degree() == lo and deg[g.minimum_degree_vertex()] == lo, 'minimum_degree')
    else:
        for f in (g.maximum_degree, g.maximum_degree_vertex, g.minimum_degree, g.minimum_degree_vertex):
            S.raises(ValueError, f, label='degree extremes of the graph without vertices')
    if len(vs) > 1:
        S.check(abs(g.density() * len(vs) * (len(vs) - 1) / 2 - len(es)) < 1e-9, 'density')
    by = g.vertices(order='degree')
    S.check(sorted(by) == vs and all(deg[a] <= deg[b] for a, b in zip(by, by[1:])), 'vertices by degree')
    by = g.vertices(order='degree', reverse=True)
    S.check(sorted(by) == vs and all(deg[a] >= deg[b] for a, b in zip(by, by[1:])), 'vertices by decreasing degree')
    ind, left = g.vertices(order='induced'), set(vs)
    S.check(sorted(ind) == vs, 'induced order')
    for u in ind:
        S.check(all(len(m.nb(u) & left) <= len(m.nb(v) & left) for v in left), 'induced order')
        left.discard(u)


OPS = ['add_vertex', 'add_edge', 'add_edge tuple', 'delete_vertex', 'delete_edge', 'delete_edge tuple', 'remove_vertex', 'remove_edge',
       'remove_edge tuple', 'delete_vertices', 'remove_vertices', 'remove_neighborhood', 'remove_closed_neighborhood', 'add_vertices', 'add_edges', 'copy']


def step(S, g, m, i, n, op, N):
    """Applies one operation; returns the graph and model that go on."""
    i_u = S.conc(S.int('u%d' % i, 0, n - 1))
    u = N(i_u)
    v = w = None
    if 'edge' in op or op in ('delete_vertices', 'remove_vertices', 'add_vertices'):
        v = N(S.conc(S.int('v%d' % i, 0, n - 1)) if n < 9 else (i_u + S.choice('v%d' % i, [1, 2, 5])) % n)
        S.assume(u != v)
        if op.startswith('add_edge'):
            w = S.int('w%d' % i)
    base, t = op.split()[0], op.endswith('tuple')
    if base == 'add_vertex':
        g.add_vertex(u)
        m.v.add(u)
    elif base == 'add_vertices':
        g.add_vertices([u, v])
        m.v |= {u, v}
    elif base == 'add_edge':
        g.add_edge((u, v, w)) if t else g.add_edge(u, v, w)
        m.add(u, v, w)
    elif base == 'add_edges':
        z = N(n) if i_u == 0 else next(x for x in map(N, range(n)) if x not in (u, v))
        g.add_edges([(u, v, w), (v, z)])
        m.add(u, v, w)
        m.add(v, z, 1)
    elif base == 'copy':
        h = g.copy()
        h.add_edge(u, N(n), 7)
        h.delete_vertex(N((i_u + 1) % n))
        same(S, g, m, 'copy: the original changed')
        m = m.copy()
        m.add(u, N(n), 7)
        m.cut([N((i_u + 1) % n)])
        g = h
    elif base.startswith('delete'):
        if base == 'delete_vertex':
            g.delete_vertex(u)
            m.cut([u])
        elif base == 'delete_vertices':
            g.delete_vertices([u, v])
            m.cut([u, v])
        else:
            g.delete_edge((u, v) if i_u % 2 else (u, v, 5)) if t else g.delete_edge(u, v)
            m.drop(u, v)
    else:
        k = m.copy()
        if base == 'remove_vertex':
            h = g.remove_vertex(u)
            k.cut([u])
        elif base == 'remove_vertices':
            h = g.remove_vertices([u, v])
            k.cut([u, v])
        elif base == 'remove_edge':
            h = g.remove_edge((u, v) if i_u % 2 else (u, v, 5)) if t else g.remove_edge(u, v)
            k.drop(u, v)
        else:
            S.assume(u in m.v)
            h = getattr(g, base)(u)
            k.cut(m.nb(u) | ({u} if 'closed' in base else set()))
        same(S, g, m, base + ': the original changed')
        g, m = h, k
    return g, m


HQ = [dict(n=3, ops=[o]) for o in OPS] + [dict(n=3, ops=[o, p]) for o in OPS for p in OPS] + named([dict(n=3, ops=[o]) for o in OPS], ('strings', 'sparse'))
EDIT = ['add_edge', 'delete_vertex', 'remove_edge tuple', 'copy', 'delete_edge']
HT = [dict(n=4, ops=[o]) for o in OPS] + [dict(n=3, ops=[o, p, q]) for o in EDIT for p in EDIT for q in EDIT]


@harness('G01', const_hash=True, t=100, quick=HQ, thorough=HT)
def history(S, n, ops, labels=None):
    """Queries are asked before, between and after the edits."""
    N = LABELS[labels] if labels else lambda i: i
    g = S.mod(G).Graph()
    es = sym_edges(S, n)
    m = Model()
    for i, (u, v) in enumerate(es):
        w = S.int('s%d' % i)
        if i % 2:
            g.add_edge(N(v), N(u), w)
        else:
            g.add_edge(N(u), N(v), weight=w)
        m.add(N(u), N(v), w)
    queries(S, g, m)
    for i, op in enumerate(ops):
        g, m = step(S, g, m, i, n, op, N)
        same(S, g, m, op)
        queries(S, g, m)
    S.observe(g.edges(weights=True))


@harness('G01', const_hash=True, t=100, quick=[dict(n=n) for n in (0, 1, 2, 3, 4)], thorough=[dict(n=5)])
def queried(S, n):
    es = sym_edges(S, n)
    ws = {e: S.int('w%d%d' % e) for e in es}
    g = build(S, n, es, ws)
    m = Model(range(n), {frozenset(e): w for e, w in ws.items()})
    same(S, g, m, 'built')
    S.observe(g.edges(weights=True))
    queries(S, g, m)
    if n > 2:
        us = [u for u in range(n) if S.bool('in%d' % u)]
        h = g.induced_subgraph(us)
        k = m.copy()
        k.cut(set(range(n)) - set(us))
        same(S, h, k, 'induced_subgraph')
        same(S, g, m, 'induced_subgraph: the original changed')


WHERE = sorted(set(LARGE) - {'k4444', 'path18'}) + ['petersen', 'crown', 'tree9', 'cube']


@harness('G01', const_hash=True, t=100, quick=[dict(base=WHERE[i % len(WHERE)], ops=[o]) for i, o in enumerate(OPS)], thorough=[dict(base=WHERE[(i * 5 + 3) % len(WHERE)], ops=[o]) for i, o in enumerate(OPS)] + [dict(base=b, ops=['remove_vertex', 'add_edge']) for b in ('tree9', 'grid33')])
def larger(S, base, ops):
    """Edits of graphs of up to 20 vertices; two weights are arbitrary."""
    n, W = weights_of(S, base, 1, 2, lo=None, hi=None)
    g = build(S, n, sorted(W), W)
    m = Model(range(n), {frozenset(e): w for e, w in W.items()})
    same(S, g, m, 'built')
    queries(S, g, m)
    for i, op in enumerate(ops):
        g, m = step(S, g, m, i, n, op, lambda i: i)
        same(S, g, m, op)
        queries(S, g, m)
    us = sorted(m.v)[::2]
    h, k = g.induced_subgraph(us), m.copy()
    k.cut(m.v - set(us))
    same(S, h, k, 'induced_subgraph')
    queries(S, h, k)
