"""Travelling salesman tours."""
import random
from itertools import permutations
from symx.run import harness, META
from symx.oracle import *
from symx.anneal import clipped

META['C05'] = dict(bounds='up to 10 points with all but one or two distances fixed; '
                          'matrices of the listed number of points; the entries named symbolic are arbitrary integers >= 0 '
                          '(bounded where the record says so), the others are fixed numbers; symmetric where the method '
                          'is documented for symmetric distances',
                   assumptions=['distances are exact integers: float rounding of Euclidean distances is not modelled, '
                                'the Euclidean matrix itself is checked on integer points in a small square'])
T = 'rosemary.combinatorics.optimization.tsp'
INF = float('inf')
FIX = [[0, 3, 8, 5, 9, 4], [6, 0, 4, 7, 2, 6], [5, 9, 0, 3, 6, 8], [4, 4, 7, 0, 5, 3], [8, 3, 5, 6, 0, 7], [2, 7, 6, 4, 9, 0]]


def matrix(S, n, free, sym, hi=None, diag=INF):
    """Entries in free (pairs) symbolic, others from FIX."""
    d = [[diag] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and not (sym and j < i):
                d[i][j] = S.int('d%d%d' % (i, j), 0, hi) if free == 'all' or [i, j] in free else FIX[i][j]
                if sym:
                    d[j][i] = d[i][j]
    return d


def length(d, p):
    return sum_f(d[p[i - 1]][p[i]] for i in range(len(p)))


def tours(n):
    return [(0,) + p for p in permutations(range(1, n))]


def optimal(S, d, n, res, what):
    c, path = res
    S.check(sorted(path) == list(range(n)), what + ': not a tour through every point')
    S.check(c == length(d, path), what + ': reported cost is not the cost of the tour')
    S.check(all_f(c <= length(d, p) for p in tours(n)), what + ': a shorter tour exists')


EX = [dict(n=2, free='all'), dict(n=3, free='all'), dict(n=4, free='all'),
      dict(n=5, free=[[0, 1], [1, 2], [2, 3], [3, 4]]), dict(n=5, free=[[0, 4], [4, 1], [3, 2], [2, 0]])]


@harness('C05', t=120, quick=EX + [dict(n=5, free=[[0, 1], [1, 3], [3, 2], [2, 4], [4, 0], [1, 0]])], thorough=EX + [dict(n=5, free=[[0, 1], [1, 3], [3, 2], [2, 4], [4, 0], [1, 0], [2, 1]]), dict(n=6, free=[[0, 1], [1, 3], [3, 2]])])
def exhaustive(S, n, free):
    m = S.mod(T)
    d = matrix(S, n, free, False)
    r = m.depth_first([None] * n, d)
    S.observe(r)
    optimal(S, d, n, r, 'depth_first')


BB = [dict(n=2, free='all'), dict(n=3, free='all')] + \
     [dict(n=4, free=f) for f in ([[0, 1], [1, 2], [2, 3]], [[0, 2], [3, 1], [2, 0]], [[1, 0], [2, 1], [3, 2]], [[0, 3], [3, 0], [1, 2]],
                                         [[0, 1], [1, 2], [2, 3], [3, 0]], [[0, 1], [0, 2], [1, 0], [2, 0]])] + \
     [dict(n=5, free=f) for f in ([[0, 1], [1, 2]], [[4, 0], [3, 4]], [[1, 3], [3, 1]])]
BBT = [dict(n=4, free=[[0, 1], [0, 2], [0, 3], [1, 2], [2, 3]]), dict(n=5, free=[[0, 1], [1, 2], [2, 3]])]


@harness('C05', t=120, quick=BB, thorough=BBT)
def bounded(S, n, free):
    m = S.mod(T)
    d = matrix(S, n, free, False)
    r = m.branch_and_bound([None] * n, d)
    S.observe(r)
    optimal(S, d, n, r, 'branch_and_bound')


@harness('C05', t=120, quick=[dict(n=2, free='all'), dict(n=3, free='all'), dict(n=4, free='all'), dict(n=5, free=[[0, 1], [1, 2], [2, 3]])],
         thorough=[dict(n=4, free='all'), dict(n=5, free=[[0, 1], [1, 2], [2, 3], [3, 4], [0, 4]])])
def insertion(S, n, free):
    m = S.mod(T)
    d = matrix(S, n, free, True)
    d[0][0] = 0
    w, path = m.farthest_insertion([None] * n, d)
    S.observe(w, path)
    S.check(sorted(path) == list(range(n)), 'farthest_insertion: not a tour')
    S.check(path[0] == 0, 'farthest_insertion: start')
    S.check(w == length(d, path), 'farthest_insertion: reported weight is not the weight of the tour')


@harness('C05', t=120, quick=[dict(n=4, free='all', hi=4), dict(n=5, free=[[0, 1], [1, 2], [2, 3]], hi=12), dict(n=5, free=[[0, 3], [1, 4], [2, 4]], hi=9), dict(n=6, free=[[0, 3], [2, 5]], hi=12)],
         thorough=[dict(n=4, free='all', hi=9), dict(n=5, free=[[0, 3], [1, 4], [2, 4], [0, 1]], hi=9), dict(n=6, free=[[0, 3], [2, 5], [1, 4]], hi=9)])
def local_search(S, n, free, hi):
    m = S.mod(T)
    d = matrix(S, n, free, True, hi)
    for name in ('two_opt', 'steepest_ascent_two_opt'):
        c, path = getattr(m, name)([None] * n, d)
        S.observe(c, path)
        S.check(sorted(path) == list(range(n)), name + ': not a tour')
        S.check(c == length(d, path), name + ': reported cost is not the cost of the tour')
        S.check(all_f(length(d, path) <= length(d, path[:i + 1] + path[i + 1:j + 1][::-1] + path[j + 1:])
                      for i in range(n) for j in range(i + 2, n)), name + ': an improving exchange exists')


@harness('C05', random='nondet', max_rand=5, quick=[dict(n=4), dict(n=5)], thorough=[dict(n=4), dict(n=6)])
def random_exchange(S, n):
    m = S.mod(T)
    p = [(3 * i + 1) % 11 for i in range(n)]
    q = m.random_two_opt(p)
    S.observe(q)
    S.check(sorted(q) == sorted(p), 'random_two_opt: not a rearrangement')
    pairs = lambda x: {frozenset((x[i - 1], x[i])) for i in range(len(x))}
    S.check(len(pairs(q) - pairs(p)) in (0, 2), 'random_two_opt: not an exchange of two edges')


@harness('C05', quick=[dict(B=2)], thorough=[dict(B=5)])
def euclid(S, B):
    m = S.mod(T)
    p = [(S.conc(S.int('x', -B, B)), S.conc(S.int('y', -B, B))), (1, -1), (0, 2)]
    d = m.euclidean_distance_matrix(p)
    for i in range(3):
        for j in range(3):
            if i == j:
                S.check(d[i][j] == INF, 'euclidean_distance_matrix: diagonal')
            else:
                e = (p[i][0] - p[j][0])**2 + (p[i][1] - p[j][1])**2
                S.check(abs(d[i][j] * d[i][j] - e) < 1e-9, 'euclidean_distance_matrix')
    S.check(abs(m.cost([0, 2, 1], d, 3) - (d[0][2] + d[2][1] + d[1][0])) < 1e-9, 'cost')


GT = 'rosemary.combinatorics.optimization.genetic_tsp'
PTS = [(0, 0), (7, 1), (3, 8), (9, 9), (1, 5), (6, 4), (12, 3), (4, 13), (10, 6), (2, 11), (14, 8), (5, 5), (8, 12), (11, 0), (13, 13), (0, 9),
       (15, 2), (6, 15), (12, 10), (3, 2), (9, 3), (1, 14)]


def elen(p, path):
    return sum(((p[path[i - 1]][0] - p[path[i]][0])**2 + (p[path[i - 1]][1] - p[path[i]][1])**2)**0.5 for i in range(len(path)))


def near(a, b):
    return abs(a - b) < 1e-6


@harness('C05', t=150, quick=[dict(n=n) for n in (3, 4, 5)], thorough=[dict(n=6), dict(n=7, first=0)])
def genetic_exchange(S, n, first=None):
    """The exchange step of the genetic search, from every starting tour."""
    g = S.mod(GT).TravelingSalesman([list(p) for p in PTS[:n]])
    left, path = list(range(n)), []
    if first is not None:
        path.append(left.pop(first))
    while left:
        path.append(left.pop(S.conc(S.int('p%d' % len(path), 0, len(left) - 1)) if len(left) > 1 else 0))
    start = list(path)
    S.check(near(g.cost(path), elen(PTS, path)), 'TravelingSalesman.cost')
    c, out = g.two_opt(path)
    S.observe(out)
    S.check(path == start, 'TravelingSalesman.two_opt: the given tour was changed')
    S.check(sorted(out) == list(range(n)), 'TravelingSalesman.two_opt: not a tour')
    S.check(near(c, elen(PTS, out)), 'TravelingSalesman.two_opt: cost is not the length')
    S.check(c < elen(PTS, start) + 1e-6, 'TravelingSalesman.two_opt: longer than the given tour')


@harness('C05', t=150, random='nondet', quick=[dict(n=20), dict(n=22)], thorough=[dict(n=21)])
def genetic_crossover(S, n):
    """Children of two tours are tours, for every choice of the crossing points."""
    g = S.mod(GT).TravelingSalesman([list(p) for p in PTS[:n]])
    a = list(range(n))
    b = [7 * i % n if n != 21 else 5 * i % n for i in range(n)]
    for c, out in g.mgkrec(list(a), list(b)):
        S.check(sorted(out) == list(range(n)), 'TravelingSalesman.mgkrec: not a tour')
        S.check(near(c, elen(PTS, out)), 'TravelingSalesman.mgkrec: cost is not the length')


@harness('C05', t=150, random='seeded', quick=[dict(pop=p, rounds=r) for p in (2, 4) for r in (0, 1, 2)], thorough=[dict(pop=8, rounds=5)])
def genetic_search(S, pop, rounds):
    n = 20
    k = S.conc(S.int('shift', 0, 2))
    g = S.mod(GT).TravelingSalesman([list(p) for p in PTS[k:k + n]])
    c, out = g.solve(pop, rounds)
    S.observe(out)
    S.check(sorted(out) == list(range(n)), 'TravelingSalesman.solve: not a tour')
    S.check(near(c, elen(PTS[k:k + n], out)), 'TravelingSalesman.solve: cost is not the length of the tour')


@harness('C05', t=150, random='seeded', quick=[dict(n=5, free=f, hi=9) for f in ([[0, 1]], [[0, 2]], [[1, 4]], [[3, 4]])] + [dict(n=3, free='all')], thorough=[dict(n=5, free=f, hi=9) for f in ([[0, 1], [1, 2]], [[1, 3], [2, 4]])] + [dict(n=6, free=[[0, 3]], hi=9)])
def annealing(S, n, free, hi=None):
    m = S.mod(T)
    d = matrix(S, n, free, True, hi)
    with clipped(S, m, 1, coins=False):
        c, path = m.simulated_annealing_two_opt([None] * n, d)
    S.observe(c, path)
    S.check(sorted(path) == list(range(n)), 'simulated_annealing_two_opt: not a tour')
    S.check(c == length(d, path), 'simulated_annealing_two_opt: cost is not the length of the tour')


def mixed(S, n, seed, j, sym, hi=30):
    """Fixed distances, j of them symbolic."""
    r = random.Random(seed)
    ps = [(a, b) for a in range(n) for b in range(n) if (a < b if sym else a != b)]
    free = set(r.sample(ps, j))
    d = [[INF] * n for _ in range(n)]
    for a, b in ps:
        d[a][b] = S.int('d%d%d' % (a, b), 0, hi) if (a, b) in free else r.randint(1, 20)
        if sym:
            d[b][a] = d[a][b]
    return d


@harness('C05', t=150, quick=[dict(f=f, n=n, seed=s, j=j) for f in ('depth_first', 'branch_and_bound') for n, s, j in ((5, 1, 2), (6, 2, 1), (6, 3, 1))], thorough=[dict(f=f, n=n, seed=s, j=j) for f in ('depth_first', 'branch_and_bound') for n, s, j in ((6, 4, 2), (7, 5, 1), (6, 6, 2))])
def larger_exact(S, f, n, seed, j):
    m = S.mod(T)
    d = mixed(S, n, seed, j, False)
    r = getattr(m, f)([None] * n, d)
    S.observe(r)
    optimal(S, d, n, r, f)


@harness('C05', t=150, quick=[dict(n=n, seed=s, j=2) for n, s in ((7, 1), (8, 2), (9, 3), (10, 4))], thorough=[dict(n=n, seed=s, j=3) for n, s in ((7, 5), (8, 6), (9, 7), (12, 8))])
def larger_heuristic(S, n, seed, j):
    m = S.mod(T)
    d = mixed(S, n, seed, j, True)
    name = S.choice('f', ['two_opt', 'steepest_ascent_two_opt', 'farthest_insertion'])
    if name == 'farthest_insertion':
        d[0][0] = 0
    c, path = getattr(m, name)([None] * n, d)
    S.observe(c, path)
    S.check(sorted(path) == list(range(n)), name + ': not a tour')
    S.check(c == length(d, path), name + ': reported cost is not the cost of the tour')
    if name != 'farthest_insertion':
        S.check(all_f(length(d, path) <= length(d, path[:i + 1] + path[i + 1:k + 1][::-1] + path[k + 1:])
                      for i in range(n) for k in range(i + 2, n)), name + ': an improving exchange exists')


@harness('C05', quick=[dict(n=n) for n in (3, 4, 5)], thorough=[dict(n=n) for n in (3, 4, 5, 6)])
def from_points(S, n):
    """Without a distance matrix the algorithms measure the points themselves."""
    m = S.mod(T)
    p = PTS[:n - 1] + [(S.conc(S.int('x', 2, 4)), S.conc(S.int('y', -1, 1)))]
    d = m.euclidean_distance_matrix(p)
    best = min(elen(p, (0,) + t) for t in permutations(range(1, n)))
    for f in ('depth_first', 'branch_and_bound', 'farthest_insertion', 'steepest_ascent_two_opt', 'two_opt'):
        c, path = getattr(m, f)(p)
        S.check(sorted(path) == list(range(n)), f + ': not a tour')
        S.check(near(c, elen(p, path)), f + ': cost')
        S.check(near(c, getattr(m, f)(p, d)[0]), f + ': differs with the matrix given')
        if f in ('depth_first', 'branch_and_bound'):
            S.check(near(c, best), f + ': not shortest')
    es = m.farthest_insertion(p, d, edges=True)
    c, path = m.farthest_insertion(p, d)
    S.check(set(es) == {(path[i - 1], path[i]) for i in range(n)}, 'farthest_insertion: edges')
