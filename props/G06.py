"""Steiner trees: edge weights stay symbolic; the guarantee is against every subtree that spans the terminals."""
import random
from itertools import combinations
from symx.run import harness, META
from symx.oracle import *
from symx.gr import *

META['G06'] = dict(bounds='graphs of 7 to 20 vertices with listed weights from 0 to 4, two of them arbitrary, and 2 to 5 terminals; the listed connected graphs with arbitrary non-negative integer weights (bounded, and positive unless lo is 0, where hi is given) and '
                          'the listed terminals, or all non-empty sets of terminals; the same over named, tuple, sparse and negative integer vertices inserted in another order for the listed instances')
M = 'rosemary.graphs.algorithms.steiner_trees'
BOTH = ['distance_network_heuristic', 'minimum_cost_paths_heuristic']


def is_tree(es, terminals):
    vs = {v for e in es for v in e} | set(terminals)
    if len(es) != len(vs) - 1:
        return False
    seen = {next(iter(vs))}
    for _ in vs:
        seen |= {v for e in es if set(e) & seen for v in e}
    return seen == vs


def steiner_trees(edges, terminals):
    """Every subtree that spans the terminals and has no other leaf."""
    out = []
    for r in range(len(edges) + 1):
        for T in combinations(sorted(edges), r):
            if is_tree(T, terminals) and not leaves(T) - set(terminals):
                out.append(T)
    return out


def leaves(T):
    vs = [v for e in T for v in e]
    return {v for v in vs if vs.count(v) == 1}


K4 = pairs(4)
TRI = [[0, 1], [0, 2], [1, 2]]
C4 = [[0, 1], [1, 2], [2, 3], [0, 3]]
DIA = K4[:5]
STAR = [[0, 3], [1, 3], [2, 3], [0, 1], [1, 2]]
WHEEL = [[0, 3], [1, 3], [2, 3], [0, 1], [1, 2], [0, 2]]
HOUSE = [[0, 1], [1, 2], [2, 3], [0, 3], [2, 4], [3, 4]]
TREE5 = [[0, 1], [1, 2], [1, 3], [3, 4]]
SPIDER = [[0, 3], [1, 3], [1, 4], [2, 4], [3, 4], [0, 1]]
Q = [dict(n=1, edges=[], T=[[0]]), dict(n=2, edges=[[0, 1]], T='all'), dict(n=3, edges=[[0, 1], [1, 2]], T='all'), dict(n=3, edges=TRI, T='all'),
     dict(n=4, edges=C4, T='all'), dict(n=5, edges=TREE5, T='all'),
     dict(n=4, edges=DIA, T=[[0, 1], [0, 3], [2, 3]]), dict(n=4, edges=STAR, T=[[0, 2], [0, 1, 2]]), dict(n=4, edges=STAR, hi=2, T='all'),
     dict(n=4, edges=WHEEL, hi=2, T=[[0, 1, 2], [2, 0, 1]]), dict(n=5, edges=HOUSE, hi=2, T=[[0, 2, 4], [0, 4], [1, 3, 4]]),
     dict(n=5, edges=SPIDER, hi=2, T=[[0, 1, 2], [0, 2]]), dict(n=5, edges=HOUSE, lo=0, hi=1, T=[[0, 2, 4], [1, 3, 4], [4, 0, 3, 2]]), dict(n=5, edges=SPIDER, lo=0, hi=1, T=[[0, 1, 2], [2, 4, 0]])]
# Two equally short paths 4-1-2-3 and 4-(7)-0-3: the tree built first has the dead branch 4-(7)-0.
DEAD = [[0, 3], [0, 4], [1, 2], [1, 4], [2, 3], [2, 5], [3, 6]]
DEAD2 = [[0, 3], [0, 7], [4, 7], [1, 2], [1, 4], [2, 3], [2, 5], [3, 6]]
Q += [dict(n=7, edges=DEAD, hi=6, w=[None, None, 1, 1, 2, 3, 1], T=[[5, 4, 6], [4, 5, 6]]),
      dict(n=8, edges=DEAD2, hi=6, w=[6, None, None, 2, 2, 4, 6, 2], T=[[5, 4, 6], [6, 5, 4]])]
Q += named([dict(n=3, edges=TRI, T='all'), dict(n=4, edges=DIA, T=[[0, 3], [2, 3]]), dict(n=4, edges=STAR, T=[[0, 1, 2]]), dict(n=4, edges=C4, hi=3, T='all')])
T_ = [dict(n=7, edges=DEAD, hi=4, w=[None, None, 1, 1, None, 3, 1], T=[[5, 4, 6], [4, 5, 6]]),
      dict(n=8, edges=DEAD2, hi=6, w=[6, None, None, 2, 2, None, 6, 2], T=[[5, 4, 6], [6, 5, 4]]),
      dict(n=4, edges=WHEEL, hi=3, T=[[0, 1, 2]]), dict(n=4, edges=DIA, T='all'), dict(n=5, edges=HOUSE, hi=3, T=[[0, 2, 4], [0, 4]]), dict(n=5, edges=HOUSE, hi=2, T='all'),
      dict(n=5, edges=SPIDER, hi=3, T=[[0, 1, 2]]), dict(n=6, edges=[[0, 3], [1, 4], [2, 5], [3, 4], [4, 5], [3, 5], [0, 1]], hi=2, T=[[0, 1, 2]]), dict(n=5, edges=HOUSE, lo=0, hi=2, T='all'), dict(n=4, edges=WHEEL, lo=0, hi=3, T='all')]


@harness('G06', t=400, const_hash=True, quick=[dict(f=f, **p) for f in BOTH for p in Q], thorough=[dict(f=f, **p) for f in BOTH for p in T_])
def steiner(S, f, n, edges, T, hi=None, w=None, labels=None, lo=None):
    m = algs(S, M, labels, n)
    es = [tuple(e) for e in edges]
    W = {e: w[i] if w and w[i] is not None else S.int('w%d%d' % e, (0 if hi is None else 1) if lo is None else lo, hi) for i, e in enumerate(es)}
    g = build(S, n, es, W)
    subsets = [list(c) for r in range(1, n + 1) for c in combinations(range(n), r)] if T == 'all' else T
    ts = S.choice('T', subsets)
    total, tree = getattr(m, f)(g, list(ts))
    S.observe(total, tree)
    if len(ts) == 1:
        S.check(total == 0 and list(tree) == [], f + ': one terminal needs no edge')
        return
    tr = [tuple(sorted(e)) for e in tree]
    S.check(len(set(tr)) == len(tr) and all(e in W for e in tr), f + ': not edges of the graph')
    S.check(is_tree(tr, ts), f + ': not a tree that contains the terminals')
    S.check(not leaves(tr) - set(ts), f + ': a leaf that is not a terminal')
    S.check(total == sum_f(W[e] for e in tr), f + ': total is not the weight of the tree')
    k = len(ts)
    S.check(all_f(k * total <= 2 * (k - 1) * sum_f(W[e] for e in X) for X in steiner_trees(es, ts)),
            f + ': more than 2(1 - 1/k) times the weight of a Steiner tree')


def least(n, W, ts):
    """The weight of a lightest tree that contains the terminals (Dreyfus and Wagner)."""
    top = sum(W.values()) + 1
    D = [[0 if u == v else top for v in range(n)] for u in range(n)]
    for (u, v), w in W.items():
        D[u][v] = D[v][u] = min(w, D[u][v])
    for c in range(n):
        for a in range(n):
            for b in range(n):
                D[a][b] = min(D[a][b], D[a][c] + D[c][b])
    k = len(ts)
    t = {1 << i: list(D[x]) for i, x in enumerate(ts)}
    for s in range(1, 1 << k):
        if s not in t:
            row = [top] * n
            a = (s - 1) & s
            while a:
                for v in range(n):
                    row[v] = min(row[v], t[a][v] + t[s ^ a][v])
                a = (a - 1) & s
            t[s] = [min(row[u] + D[u][v] for u in range(n)) for v in range(n)]
    return min(t[(1 << k) - 1])


GR = ['petersen', 'grid33', 'cube', 'tree9', 'triangles', 'wheel7', 'moser', 'c9', 'grid45', 'dodecahedron', 'cube4', 'cliques', 'windmill', 'tree20', 'path18', 'k6,10', 'star15', 'c17', 'k12', 'k4444']


@harness('G06', t=200, const_hash=True, conc_div=True, quick=[dict(base=b, seed=s, k=2, hi=3) for i, b in enumerate(GR) for s in (1, 2)], thorough=[dict(base=b, seed=s, k=4, hi=3) for b in GR for s in (3, 4, 5)])
def larger(S, base, seed, k, hi):
    """Fixed weights up to a small bound (so that many distances are equal), k of them arbitrary, 2 to 5 terminals."""
    m = S.mod(M)
    n, W = weights_of(S, base, seed, k, hi=hi, big=4)
    W = {e: S.conc(w) for e, w in W.items()}
    ts = random.Random(seed).sample(range(n), n)[:2 + S.choice('T', [0, 1, 2, 3])]
    g = build(S, n, sorted(W), W)
    best = least(n, W, ts)
    for f in BOTH:
        total, tree = getattr(m, f)(g, list(ts))
        tr = [tuple(sorted(e)) for e in tree]
        S.check(len(set(tr)) == len(tr) and all(e in W for e in tr), f + ': not edges of the graph')
        S.check(is_tree(tr, ts), f + ': not a tree that contains the terminals')
        S.check(not leaves(tr) - set(ts), f + ': a leaf that is not a terminal')
        S.check(total == sum(W[e] for e in tr), f + ': total is not the weight of the tree')
        S.check(len(ts) * total <= 2 * (len(ts) - 1) * best, f + ': more than 2(1 - 1/k) times the weight of a Steiner tree')
