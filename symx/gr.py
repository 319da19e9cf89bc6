"""Symbolic graphs for harnesses: edges are symbolic bools read through the public methods."""
import random
from itertools import combinations

G = 'rosemary.graphs.graphs'


def pairs(n):
    return list(combinations(range(n), 2))


def sym_edges(S, n, fixed=None, extra=(), perm=None, name='e'):
    """Edge set over 0..n-1; the first len(fixed) pairs are given by the bits of fixed."""
    out = []
    for i, (u, v) in enumerate(pairs(n)):
        if fixed is not None and i < len(fixed):
            b = fixed[i] == '1'
        else:
            b = bool(S.bool('%s%d%d' % (name, u, v)))
        if b:
            out.append((u, v))
    return out


LABELS = {'strings': lambda i: 'v' + 'abcdefghijklmnop'[i], 'tuples': lambda i: (i // 3, i % 3), 'sparse': lambda i: 1000 + 7 * i * i, 'negative': lambda i: i - 2000}


class Labelled:
    """A module whose functions see the vertices 0, 1, ... under other (increasing) names; results come back as numbers."""

    def __init__(self, module, names):
        self.module, self.names, self.inv = module, names, {x: i for i, x in enumerate(names)}

    def out(self, x):
        if type(x) in (str, int) or type(x) is tuple and all(type(y) is int for y in x):
            return self.inv.get(x, x if type(x) is not tuple else tuple(map(self.out, x)))
        if type(x) in (list, tuple, set, frozenset):
            return type(x)(self.out(y) for y in x)
        if isinstance(x, dict):
            return {self.out(k): self.out(v) for k, v in x.items()}
        return (self.out(y) for y in x) if hasattr(x, '__next__') else x

    def into(self, x):
        if type(x) is int and 0 <= x < len(self.names):
            return self.names[x]
        if type(x) in (list, tuple, set):
            return type(x)(self.into(y) for y in x)
        return {self.into(k): v for k, v in x.items()} if isinstance(x, dict) else x

    def __getattr__(self, f):
        f_ = getattr(self.module, f)
        return lambda g, *a, **kw: self.out(f_(g, *(a if f == 'gabow' else map(self.into, a)), **{k: self.into(v) if k in ('vertices', 'root') else v for k, v in kw.items()}))


def algs(S, name, labels=None, n=None, base=None, **_):
    """A module of graph algorithms, and in S the vertex names that build() is to use."""
    S.names = labels and [LABELS[labels](i) for i in range(n or BASES[base][0])]
    return Labelled(S.mod(name), S.names) if labels else S.mod(name)


def seen_as(S, x):
    """Vertices in x as numbers."""
    return Labelled(None, S.names).out(x) if getattr(S, 'names', None) else x


def named(ps, kinds=('strings', 'sparse', 'tuples', 'negative')):
    """Instances with other vertex names."""
    return [dict(p, labels=kinds[i % len(kinds)]) for i, p in enumerate(ps)]


def build(S, n, edges, weights=None, vertices=True):
    g = S.mod(G).Graph()
    names = getattr(S, 'names', None)
    if names:
        # other names, and another order of insertion
        r = random.Random(n)
        vs, es = list(range(n)), list(edges)
        r.shuffle(vs)
        r.shuffle(es)
        g.add_vertices([names[v] for v in vs])
        for i, (u, v) in enumerate(es):
            a, b = (names[u], names[v]) if i % 2 else (names[v], names[u])
            g.add_edge(a, b) if weights is None else g.add_edge(a, b, weights[u, v])
        return g
    if vertices:
        g.add_vertices(range(n))
    for e in edges:
        if weights is None:
            g.add_edge(e)
        else:
            g.add_edge(e[0], e[1], weights[e])
    return g


def adj(n, edges):
    a = {i: set() for i in range(n)}
    for u, v in edges:
        a[u].add(v)
        a[v].add(u)
    return a


def splits(k):
    """Params fixing the first k edges, to run on k**2 workers."""
    return [format(i, '0%db' % k) for i in range(2**k)] if k else ['']


def cyc(*vs):
    return [(vs[i - 1], vs[i]) for i in range(len(vs))]


def _join(a, b):
    return [(u, v) for u in a for v in b]


def _not(n, es):
    es = {tuple(sorted(e)) for e in es}
    return [p for p in pairs(n) if p not in es]


C5C5 = cyc(*range(5)) + cyc(*range(5, 10)) + _join(range(5), range(5, 10))
BASES = {
    'petersen': (10, cyc(*range(5)) + [(i, i + 5) for i in range(5)] + cyc(5, 7, 9, 6, 8)),
    'groetzsch': (11, cyc(*range(5)) + [(5 + i, (i + 1) % 5) for i in range(5)] + [(5 + i, (i - 1) % 5) for i in range(5)] + [(5 + i, 10) for i in range(5)]),
    'c5c5': (10, C5C5),
    'c5c5+': (11, C5C5 + [(10, i) for i in (0, 2, 5, 6, 8)]),
    'c7c': (7, _not(7, cyc(*range(7)))),
    'c9c': (9, _not(9, cyc(*range(9)))),
    'wheel7': (8, cyc(*range(7)) + [(i, 7) for i in range(7)]),
    'moser': (7, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (0, 4), (0, 5), (4, 5), (4, 6), (5, 6), (3, 6)]),
    'octahedron': (6, _not(6, [(0, 1), (2, 3), (4, 5)])),
    'k333': (9, _not(9, cyc(0, 1, 2) + cyc(3, 4, 5) + cyc(6, 7, 8))),
    'crown': (8, [(i, 4 + j) for i in range(4) for j in range(4) if i != j]),
    'cube': (8, [(i, i ^ b) for i in range(8) for b in (1, 2, 4) if i < i ^ b]),
    'k4k4': (8, list(combinations(range(4), 2)) + list(combinations(range(4, 8), 2)) + [(3, 4), (2, 5)]),
    'c9': (9, cyc(*range(9))),
    'triangles': (9, cyc(0, 1, 2) + cyc(3, 4, 5) + cyc(6, 7, 8) + [(2, 3), (5, 6), (0, 8)]),
    'path8': (8, [(i, i + 1) for i in range(7)]),
    'ladder': (8, [(i, i + 1) for i in (0, 1, 2, 4, 5, 6)] + [(i, i + 4) for i in range(4)]),
    'grid33': (9, [(i, i + 1) for i in (0, 1, 3, 4, 6, 7)] + [(i, i + 3) for i in range(6)]),
    'k7': (7, pairs(7)),
    'star7': (8, [(0, i) for i in range(1, 8)]),
    'tree9': (9, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (5, 6), (5, 7), (7, 8)]),
}

SMALL = sorted(BASES)


def _chain(k, m):
    """k complete graphs on m vertices, joined in a row."""
    return [(i * m + a, i * m + b) for i in range(k) for a, b in pairs(m)] + [(i * m + m - 1, i * m + m) for i in range(k - 1)]


BASES.update({
    'dodecahedron': (20, [(i, (i + 1) % 10) for i in range(10)] + [(i, i + 10) for i in range(10)] + [(10 + i, 10 + (i + 2) % 10) for i in range(10)]),
    'grid45': (20, [(i, i + 1) for i in range(20) if i % 5 < 4] + [(i, i + 5) for i in range(15)]),
    'cube4': (16, [(i, i ^ b) for i in range(16) for b in (1, 2, 4, 8) if i < i ^ b]),
    'k6,10': (16, [(i, 6 + j) for i in range(6) for j in range(10)]),
    'star15': (16, [(0, i) for i in range(1, 16)]),
    'path18': (18, [(i, i + 1) for i in range(17)]),
    'c17': (17, cyc(*range(17))),
    'k12': (12, pairs(12)),
    'cliques': (15, _chain(3, 5)),
    'k4444': (16, [(a, b) for a, b in pairs(16) if a // 4 != b // 4]),
    'windmill': (15, [e for i in range(7) for e in ((0, 2 * i + 1), (0, 2 * i + 2), (2 * i + 1, 2 * i + 2))]),
    'two': (17, cyc(*range(5)) + [(i, i + 5) for i in range(5)] + cyc(5, 7, 9, 6, 8) + cyc(*range(10, 17))),
    'tree20': (20, [((i - 1) // 2 if i % 3 else (i - 1) // 3, i) for i in range(1, 20)]),
})
LARGE = sorted(set(BASES) - set(SMALL))


def around(S, base, seed, k):
    """(n, edges): the base graph with its vertices relabelled, in which each of k vertex pairs may be switched."""
    n, es = BASES[base]
    r = random.Random(seed)
    p = list(range(n))
    if seed:
        r.shuffle(p)
    es = {tuple(sorted((p[u], p[v]))) for u, v in es}
    for e in sorted(r.sample(pairs(n), k)):
        if S.bool('x%d_%d' % e):
            es ^= {e}
    return n, sorted(es)


def bases(names=None, seeds=(0, 1), k=5):
    return [dict(base=b, seed=s, k=k) for b in (names or SMALL) for s in seeds]


def graph_of(S, n=None, fix='', base=None, seed=0, k=0, labels=None):
    return (n, sym_edges(S, n, fix)) if base is None else around(S, base, seed, k)


SPARSE = ['c9', 'cube', 'grid33', 'ladder', 'moser', 'petersen', 'tree9', 'triangles', 'wheel7', 'octahedron']


def weights_of(S, base, seed, k, lo=0, hi=20, big=9, drop=0):
    """(n, weights): a relabelled base graph, fixed weights up to big, the weights of k edges symbolic in [lo, hi]."""
    n, es = BASES[base]
    r = random.Random(seed)
    p = list(range(n))
    if seed:
        r.shuffle(p)
    es = [tuple(sorted((p[u], p[v]))) for u, v in es]
    r.shuffle(es)
    es = es[drop:]
    sym = set(r.sample(es, min(k, len(es))))
    return n, {e: S.int('w%d_%d' % e, lo, hi) if e in sym else r.randint(max(lo or 0, 1), big) for e in es}


def tree_path(n, tree, u, v):
    """Edges on the path from u to v in a forest, or None."""
    a, prev, todo = adj(n, tree), {u: None}, [u]
    while todo:
        x = todo.pop()
        for y in a[x]:
            if y not in prev:
                prev[y] = x
                todo.append(y)
    if v not in prev:
        return None
    out = []
    while prev[v] is not None:
        out.append(tuple(sorted((v, prev[v]))))
        v = prev[v]
    return out


def stable_sets(n, edges):
    """(every set of pairwise nonadjacent vertices, those that are maximal), as sorted tuples."""
    nb = [0] * n
    for u, v in edges:
        nb[u] |= 1 << v
        nb[v] |= 1 << u
    out, best = [], []
    full = (1 << n) - 1

    def go(i, t, blocked, mask):
        out.append(t)
        if blocked | mask == full:
            best.append(t)
        for v in range(i, n):
            if not blocked >> v & 1:
                go(v + 1, t + (v,), blocked | nb[v], mask | 1 << v)
    go(0, (), 0, 0)
    return out, best
