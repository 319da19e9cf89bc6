"""Exact covers and what is built on them."""
from itertools import combinations, permutations
from symx.run import harness, META, windows
from symx.oracle import *

META['C06'] = dict(bounds='every family of the listed number of non-empty subsets of a target of the listed size (one symbolic '
                          'bool per membership, decided by the solver as the search reads them), completeness over a '
                          'symbolic selection of the sets; board sizes in the listed windows; sudokus derived from two '
                          'solved grids by symbolic relabelling and blanking')
X = 'rosemary.combinatorics.optimization.exact_cover'


def exact(sel, rows, width):
    """rows[i][j] whether set i has element j; sel[i] whether it is chosen."""
    return all_f(count_f(band(sel[i], rows[i][j]) for i in range(len(rows))) == 1 for j in range(width))


@harness('C06', t=150, quick=[dict(k=0, t=0), dict(k=0, t=2), dict(k=1, t=3), dict(k=2, t=3), dict(k=3, t=3), dict(k=4, t=2), dict(k=5, t=2), dict(k=4, t=3)],
         thorough=[dict(k=3, t=4), dict(k=6, t=2), dict(k=2, t=5)])
def cover(S, k, t):
    m = S.mod(X)
    rows = [[S.bool('b%d_%d' % (i, j)) for j in range(t)] for i in range(k)]
    for r in rows:
        S.assume(any_f(r))
    target = ['x%d' % j for j in range(t)]
    sets = [[target[j] for j in range(t) if rows[i][j]] for i in range(k)]
    # exact covers by any selection: the selection stays symbolic
    sel = S.bools('sel', k)
    is_cover = exact(sel, rows, t)
    for name in ('algorithmx', 'algorithm_dlx'):
        sols = list(getattr(m, name)(set(target), [list(s) for s in sets]))
        idx = [[[i for i in range(k) if sets[i] == s] for s in sol] for sol in sols]
        for sol in sols:
            S.check(sorted(e for s in sol for e in s) == target, name + ': not an exact cover')
        # multiset of solutions: number of index selections giving each tuple of sets
        keys = [tuple(sorted(tuple(s) for s in sol)) for sol in sols]
        want = [tuple(sorted(tuple(sets[i]) for i in T)) for r in range(k + 1) for T in combinations(range(k), r)
                if sorted(e for i in T for e in sets[i]) == target]
        S.check(sorted(keys) == sorted(want), name + ': solutions missing or repeated')
        S.check(implies(is_cover, any_f(all_f(bnot(sel[i]) if tuple(sets[i]) not in key else True for i in range(k))
                                        for key in set(keys))), name + ': an exact cover was not produced')


@harness('C06', t=150, quick=[dict(k=1, b=4), dict(k=2, b=3), dict(k=3, b=3), dict(k=2, b=5), dict(k=4, b=3)], thorough=[dict(k=2, b=6), dict(k=3, b=4), dict(k=5, b=2)])
def binary(S, k, b):
    m = S.mod(X)
    xs = [S.conc(x) for x in S.ints('x', k, 1, 2**b - 1)]
    e = m.ExactCoverBinary(xs)
    c = e.number_of_solutions()
    sols = list(e.solutions())
    full = (1 << max(x.bit_length() for x in xs)) - 1
    want = [sorted(T) for r in range(k + 1) for T in combinations(xs, r)
            if sum(T) == full and all(a & b == 0 for a, b in combinations(T, 2))]
    S.observe(c, sols)
    S.check(c == len(want), 'number_of_solutions')
    S.check(sorted(sorted(s) for s in sols) == sorted(want), 'solutions')


def langford(n):
    out = 0

    def go(a, p):
        nonlocal out
        if p == 0:
            out += 1
            return
        for i in range(2 * n - p - 1):
            if not a[i] and not a[i + p + 1]:
                a[i] = a[i + p + 1] = p
                go(a, p - 1)
                a[i] = a[i + p + 1] = 0
    go([0] * (2 * n), n)
    return out // 2


def dominoes(n):
    def go(left):
        if not left:
            return 1
        i, j = min(left)
        return sum(go(left - {(i, j), o}) for o in ((i, j + 1), (i + 1, j)) if o in left)
    return go(frozenset((i, j) for i in range(n) for j in range(n)))


def latin(n):
    def go(rows):
        if len(rows) == n:
            return 1
        return sum(go(rows + [p]) for p in permutations(range(n)) if all(a != b for r in rows for a, b in zip(r, p)))
    return go([])


@harness('C06', quick=[dict(L=8, D=6, Q=4)], thorough=[dict(L=8, D=6, Q=4)])
def counts(S, L, D, Q):
    m = S.mod(X)
    kind = S.choice('kind', ['langford', 'dominoes', 'latin'])
    n = S.conc(S.int('n', 1, {'langford': L, 'dominoes': D, 'latin': Q}[kind]))
    if kind == 'langford':
        r, w = m.langford_pairings(n), langford(n)
    elif kind == 'dominoes':
        S.assume(n > 1)
        r, w = m.domino_tilings(n), dominoes(n)
    else:
        e = m.ExactCoverBinary(m.latin_square_ints(n))
        r, w = e.number_of_solutions(), latin(n)
        S.check(sum(1 for _ in e.solutions()) == w, 'latin squares listed')
    S.observe(r)
    S.check(r == w, kind)


GRIDS = ['534678912672195348198342567859761423426853791713924856961537284287419635345286179',
         '123456789456789123789123456231674895875912364694538217317265948542897631968341572']


@harness('C06', t=150, quick=[dict(g=g, k=k) for g in (0, 1) for k in (6, 24, 40, 52, 60)], thorough=[dict(g=g, k=k) for g in (0, 1) for k in (1, 12, 24, 36, 45)])
def sudoku(S, g, k):
    """A solved grid with two digits relabelled and a symbolic pattern of k blanks."""
    m = S.mod(X)
    a, b = S.conc(S.int('a', 1, 3)), S.conc(S.int('b', 4, 5))
    step, start = S.choice('step', [2, 5, 7]), S.conc(S.int('start', 0, 2)) * 31
    grid = GRIDS[g].translate({ord(str(a)): str(b), ord(str(b)): str(a)})
    blanks = {(start + step * i) % 81 for i in range(k)}
    puzzle = ''.join('0' if i in blanks else c for i, c in enumerate(grid))
    out = m.sudoku_dlx(puzzle)
    S.observe(out)
    S.check(len(out) == 81 and all(p in ('0', o) for p, o in zip(puzzle, out)), 'sudoku: a clue changed')
    units = [[9 * i + j for j in range(9)] for i in range(9)] + [[9 * j + i for j in range(9)] for i in range(9)] + \
            [[27 * (i // 3) + 3 * (i % 3) + 9 * (j // 3) + j % 3 for j in range(9)] for i in range(9)]
    S.check(all(sorted(out[i] for i in u) == list('123456789') for u in units), 'sudoku: not a solved grid')
    S.check(m.to_string(m.parse(puzzle)) == puzzle, 'parse and to_string')
