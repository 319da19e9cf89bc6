"""Matrices."""
from itertools import permutations
from symx.run import harness, META
from symx.oracle import *

META['A04'] = dict(bounds='dimensions as listed; entries arbitrary integers for sums, products, scalars, row '
                          'and column removal and 1x1/2x2 determinants, bounded entries for larger determinants; assignments to a matrix built from lists or other matrices')
P = 'rosemary.algebra.matrices.matrices'


def ent(S, p, m, n):
    return [[S.int('%s%d_%d' % (p, i, j)) for j in range(n)] for i in range(m)]


def eq(S, M, want, what):
    S.check(all_f(M[i, j] == want[i][j] for i in range(len(want)) for j in range(len(want[0]))), what)
    S.check(all(len(M[i]) == len(want[0]) for i in range(len(want))), what + ': row length')
    try:
        M[len(want)]
    except IndexError:
        pass
    else:
        S.fail(what + ': too many rows')


SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]


@harness('A04', quick=[dict(m=m, n=n) for m, n in SHAPES], thorough=[dict(m=m, n=n) for m in range(1, 5) for n in range(1, 5)])
def linear(S, m, n):
    M = S.mod(P)
    a, b, s = ent(S, 'a', m, n), ent(S, 'b', m, n), S.int('s')
    A, B = M.Matrix([list(r) for r in a]), M.Matrix([list(r) for r in b])
    R, C = range(m), range(n)
    eq(S, A + B, [[a[i][j] + b[i][j] for j in C] for i in R], 'sum')
    eq(S, A - B, [[a[i][j] - b[i][j] for j in C] for i in R], 'difference')
    eq(S, -A, [[-a[i][j] for j in C] for i in R], 'negation')
    eq(S, A * s, [[a[i][j] * s for j in C] for i in R], 'matrix * scalar')
    eq(S, s * A, [[a[i][j] * s for j in C] for i in R], 'scalar * matrix')
    S.observe(a)
    eq(S, A, a, 'the operand was modified')
    eq(S, B, b, 'the operand was modified')


PS = [(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (2, 3, 1), (1, 2, 3), (3, 2, 2), (2, 2, 3), (3, 3, 3)]


@harness('A04', quick=[dict(m=m, k=k, n=n) for m, k, n in PS], thorough=[dict(m=m, k=k, n=n) for m in range(1, 5) for k in range(1, 5) for n in range(1, 5)])
def product(S, m, k, n):
    M = S.mod(P)
    a, b = ent(S, 'a', m, k), ent(S, 'b', k, n)
    A, B = M.Matrix([list(r) for r in a]), M.Matrix([list(r) for r in b])
    eq(S, A * B, [[sum_f(a[i][t] * b[t][j] for t in range(k)) for j in range(n)] for i in range(m)], 'product')
    eq(S, A, a, 'the operand was modified')
    eq(S, B, b, 'the operand was modified')
    S.observe(1)


@harness('A04')
def shapes(S):
    M = S.mod(P)
    m, n, p, q = (S.conc(S.int(x, 1, 3)) for x in 'mnpq')
    A, B = M.Matrix(m, n), M.Matrix(p, q)
    eq(S, A, [[0] * n for _ in range(m)], 'zero matrix')
    if (m, n) != (p, q):
        S.raises(ValueError, lambda: A + B)
        S.raises(ValueError, lambda: A - B)
    if n != p:
        S.raises(ValueError, lambda: A * B)
    if m != n:
        S.raises(ValueError, A.determinant)
    eq(S, M.Matrix(m), [[0] * m for _ in range(m)], 'square zero matrix')


@harness('A04', quick=[dict(m=m, n=n) for m, n in ((2, 2), (2, 3), (3, 2))], thorough=[dict(m=m, n=n) for m in range(2, 5) for n in range(2, 5)])
def removal_and_assignment(S, m, n):
    M = S.mod(P)
    a = ent(S, 'a', m, n)
    i, j = S.conc(S.int('i', 0, m - 1)), S.conc(S.int('j', 0, n - 1))
    A = M.Matrix([list(r) for r in a])
    eq(S, A.delete_row(i), [r for k, r in enumerate(a) if k != i], 'delete_row')
    eq(S, A.delete_col(j), [[x for k, x in enumerate(r) if k != j] for r in a], 'delete_col')
    eq(S, A, a, 'the operand was modified')
    v = S.int('v')
    A[i, j] = v
    b = [list(r) for r in a]
    b[i][j] = v
    eq(S, A, b, 'entry assignment')


@harness('A04', quick=[dict(m=2, n=2), dict(m=2, n=3)], thorough=[dict(m=m, n=n) for m in range(2, 5) for n in range(2, 5)])
def assignment_is_local(S, m, n):
    """Assigning to one matrix changes neither the rows it was made of nor any other matrix."""
    M = S.mod(P)
    a = ent(S, 'a', m, n)
    i, j, v = S.conc(S.int('i', 0, m - 1)), S.conc(S.int('j', 0, n - 1)), S.int('v')
    rows = [list(r) for r in a]
    A, B = M.Matrix(rows), M.Matrix(rows)
    A[i, j] = v
    S.check(all_f(x == y for r, t in zip(rows, a) for x, y in zip(r, t)), 'assignment changes the list the matrix was made of')
    eq(S, B, a, 'assignment changes another matrix made of the same list')
    for name, N in (('delete_row', B.delete_row((i + 1) % m)), ('delete_col', B.delete_col((j + 1) % n)), ('negation', -B), ('scalar multiple', B * 1)):
        N[0, 0] = v
        eq(S, B, a, 'assignment to the result of %s changes the matrix' % name)


def leibniz(a):
    n = len(a)
    tot = 0
    for p in permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        t = s
        for i in range(n):
            t = t * a[i][p[i]]
        tot = tot + t
    return tot


@harness('A04', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2)])
def determinant_unbounded(S, n):
    M = S.mod(P)
    a = ent(S, 'a', n, n)
    A = M.Matrix([list(r) for r in a])
    d = A.determinant()
    S.observe(d)
    S.check(d == leibniz(a), 'determinant')
    eq(S, A, a, 'the matrix was modified')


@harness('A04', t=110, quick=[dict(c=c, B=2) for c in range(-2, 3)], thorough=[dict(c=c, B=6) for c in range(-6, 7)])
def determinant_three(S, c, B):
    """3x3 with a bounded first column; the other six entries are arbitrary."""
    M = S.mod(P)
    a = [[S.conc(S.int('c%d' % i, -B, B)) if i else c] + [S.int('a%d_%d' % (i, j)) for j in (1, 2)] for i in range(3)]
    A = M.Matrix([list(r) for r in a])
    d = A.determinant()
    S.observe(d)
    S.check(d == leibniz(a), 'determinant')
    eq(S, A, a, 'the matrix was modified')


@harness('A04', t=110, quick=[dict(n=4, r=r) for r in range(8)], thorough=[dict(n=4, r=r) for r in range(8)] + [dict(n=5, r=r) for r in range(8)])
def determinant_zero_one(S, n, r):
    """0/1 matrices (row 0 split over instances): every pivoting pattern."""
    M = S.mod(P)
    a = [[(r >> j) & 1 if j < 3 else S.conc(S.int('t%d' % j, 0, 1)) for j in range(n)]]
    a += [[S.conc(S.int('a%d_%d' % (i, j), 0, 1)) if (i < 3) else [2, -1, 0, 3, 1][(i + j) % 5] for j in range(n)] for i in range(1, n)]
    d = M.Matrix([list(x) for x in a]).determinant()
    S.check(d == leibniz(a), 'determinant')


@harness('A04', t=100, quick=[dict(n=n, z=z) for n in (2, 3, 4, 5) for z in (0, 1)], thorough=[dict(n=n, z=z) for n in (2, 3, 4, 5, 6) for z in (0, 1)])
def huge_values(S, n, z):
    """Entries beyond 2**53, two of them arbitrary in a small range, with or without a zero corner."""
    from .A01 import HUGE
    M = S.mod(P)
    a = [[HUGE[(i * 7 + j * 5 + i * j) % 12] for j in range(n)] for i in range(n)]
    b = [[HUGE[(i * 3 + j * 11 + 2 * i * j + 4) % 12] for j in range(n)] for i in range(n)]
    a[n - 1][0], a[0][n - 1] = S.conc(S.int('u', -2, 2)), S.conc(S.int('v', -2, 2))
    if z:
        a[0][0] = 0
    A, B = M.Matrix([list(r) for r in a]), M.Matrix([list(r) for r in b])
    S.check(A.determinant() == leibniz(a), 'determinant')
    eq(S, A * B, [[sum(a[i][k] * b[k][j] for k in range(n)) for j in range(n)] for i in range(n)], 'product')
    eq(S, A + B, [[a[i][j] + b[i][j] for j in range(n)] for i in range(n)], 'sum')
    eq(S, A - B, [[a[i][j] - b[i][j] for j in range(n)] for i in range(n)], 'difference')


@harness('A04', quick=[dict(m=m, n=n) for m, n in ((1, 1), (2, 2), (1, 3), (3, 2))], thorough=[dict(m=m, n=n) for m in range(1, 5) for n in range(1, 4)])
def reflected(S, m, n):
    """The reflected operators called by name, and assignment of rows and entries."""
    M = S.mod(P)
    a, b, c = ent(S, 'a', m, n), ent(S, 'b', m, n), ent(S, 'c', n, m)
    A, B, C = M.Matrix([list(r) for r in a]), M.Matrix([list(r) for r in b]), M.Matrix([list(r) for r in c])
    eq(S, A.__radd__(B), [[a[i][j] + b[i][j] for j in range(n)] for i in range(m)], '__radd__')
    eq(S, A.__rsub__(B), [[b[i][j] - a[i][j] for j in range(n)] for i in range(m)], '__rsub__')
    eq(S, A.__rmul__(C), [[sum_f(c[i][k] * a[k][j] for k in range(m)) for j in range(n)] for i in range(n)], '__rmul__')
    eq(S, A, a, 'operand')
    row = [S.int('r%d' % j) for j in range(n)]
    i = S.conc(S.int('i', 0, m - 1))
    A[i] = list(row)
    eq(S, A, a[:i] + [row] + a[i + 1:], 'assigned row')
    x, j = S.int('x'), S.conc(S.int('j', 0, n - 1))
    B[[i, j]] = x
    eq(S, B, [[x if (r, s) == (i, j) else b[r][s] for s in range(n)] for r in range(m)], 'assigned entry')
    if m != n:
        S.raises(ValueError, lambda: A * B, label='product of matrices of unfitting shape')
        S.raises(ValueError, A.__rmul__, B, label='__rmul__ of unfitting shape')
    for o in ('+', '-', '__rmul__'):
        D = M.Matrix([[1] * (n + 1)] * m)
        S.raises(ValueError, (lambda: A + D) if o == '+' else (lambda: A - D) if o == '-' else (lambda: A.__rmul__(M.Matrix([[1] * (m + 1)] * n))), label=o + ' of unfitting shape')
