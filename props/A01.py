"""Ring operations of polynomials with integer coefficients."""
from symx.run import harness, META
from symx.oracle import *

META['A01'] = dict(bounds='coefficients arbitrary integers (no bound) for sums, products and scalars up to the '
                          'listed lengths; for the recursive product (30 coefficients and more) one factor is '
                          'symbolic and the other has listed values; powers up to the listed exponent with '
                          'bounded coefficients; listed coefficients up to 2**100')
P = 'rosemary.algebra.polynomials.polynomials'
A = 'rosemary.algebra.polynomials.algorithms'


def trim(L):
    """Drop trailing zeros without forking is impossible; used on concrete lists."""
    L = list(L)
    while len(L) > 1 and L[-1] == 0:
        L.pop()
    return L


def conv(a, b):
    r = [0] * max(len(a) + len(b) - 1, 0)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def same(S, got, want, what):
    """Equal as coefficient sequences (zero padded)."""
    got, want = list(got), list(want)
    n = max(len(got), len(want))
    got += [0] * (n - len(got))
    want += [0] * (n - len(want))
    S.check(all_f(x == y for x, y in zip(got, want)), what)


def normal(S, f, what):
    c = f.coefficients()
    S.check(len(c) >= 1, what + ': no coefficients')
    if len(c) > 1:
        S.check(c[-1] != 0, what + ': leading coefficient is zero')
    S.check(f.degree == len(c) - 1 and True, what + ': degree')
    S.check(f.lead_coeff == c[-1], what + ': lead_coeff')


SZ = [(0, 0), (1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 4), (3, 3)]


@harness('A01', quick=[dict(m=m, n=n) for m, n in SZ], thorough=[dict(m=m, n=n) for m in range(6) for n in range(6)])
def sums_and_products(S, m, n):
    M = S.mod(P)
    a = [S.int('a%d' % i) for i in range(m)]
    b = [S.int('b%d' % i) for i in range(n)]
    f, g = M.Polynomial(a), M.Polynomial(b)
    a0, b0 = a or [0], b or [0]
    pad = max(len(a0), len(b0))
    A0, B0 = a0 + [0] * (pad - len(a0)), b0 + [0] * (pad - len(b0))
    for name, r, w in (('sum', f + g, [x + y for x, y in zip(A0, B0)]),
                       ('difference', f - g, [x - y for x, y in zip(A0, B0)]),
                       ('negation', -f, [-x for x in a0]),
                       ('product', f * g, conv(a0, b0)),
                       ('product (swapped)', g * f, conv(a0, b0))):
        S.observe(r.coefficients())
        same(S, r.coefficients(), w, name)
        normal(S, r, name)
    same(S, f.coefficients(), a0, 'the operand was modified')
    same(S, g.coefficients(), b0, 'the operand was modified')
    S.check(len(a) == m and len(b) == n, 'the given list was modified')


@harness('A01', quick=[dict(m=m) for m in (1, 2, 3)], thorough=[dict(m=m) for m in (1, 2, 3, 4, 5)])
def scalars(S, m):
    M = S.mod(P)
    a = [S.int('a%d' % i) for i in range(m)]
    s = S.int('s')
    f = M.Polynomial(a)
    for name, r, w in (('polynomial + integer', f + s, [a[0] + s] + a[1:]),
                       ('integer + polynomial', s + f, [a[0] + s] + a[1:]),
                       ('polynomial - integer', f - s, [a[0] - s] + a[1:]),
                       ('integer - polynomial', s - f, [s - a[0]] + [-x for x in a[1:]]),
                       ('polynomial * integer', f * s, [x * s for x in a]),
                       ('integer * polynomial', s * f, [x * s for x in a])):
        S.observe(r.coefficients())
        same(S, r.coefficients(), w, name)
        normal(S, r, name)


@harness('A01', quick=[dict(m=m, n=n) for m, n in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 3))],
         thorough=[dict(m=m, n=n) for m in range(1, 6) for n in range(1, 6)])
def equality(S, m, n):
    M = S.mod(P)
    a = [S.int('a%d' % i) for i in range(m)]
    b = [S.int('b%d' % i) for i in range(n)]
    f, g = M.Polynomial(a), M.Polynomial(b)
    pad = max(m, n)
    eq = all_f(x == y for x, y in zip(a + [0] * (pad - m), b + [0] * (pad - n)))
    S.check(biff(f == g, eq), '==')
    S.check(biff(f != g, bnot(eq)), '!=')
    s = S.int('s')
    eq = all_f([a[0] == s] + [x == 0 for x in a[1:]])
    S.check(biff(f == s, eq), '== with an integer')
    S.check(biff(f != s, bnot(eq)), '!= with an integer')


@harness('A01', quick=[dict(m=m, x=x) for m in (1, 2, 4) for x in (-3, 0, 2)] + [dict(m=3, x=None)],
         thorough=[dict(m=m, x=x) for m in range(1, 8) for x in (-7, -1, 0, 1, 5)] + [dict(m=m, x=None) for m in (2, 3, 4)])
def evaluation(S, m, x):
    M = S.mod(P)
    a = [S.int('a%d' % i) for i in range(m)]
    v = S.int('x', -4, 4, bv=False) if x is None else x
    if x is None:
        v = S.conc(v)
    f = M.Polynomial(a)
    r = f(v)
    S.observe(r)
    S.check(r == sum_f(c * v**i for i, c in enumerate(a)), 'value')
    for i, c in enumerate(f.coefficients()):
        S.check(f[i] == c, 'coefficient access')


@harness('A01', t=100, quick=[dict(m=1, k=k, B=4) for k in (0, 1, 3)] + [dict(m=2, k=k, B=3) for k in (0, 1, 2, 3, 4)] + [dict(m=3, k=k, B=2) for k in (0, 1, 2, 3)],
         thorough=[dict(m=2, k=k, B=9) for k in range(7)] + [dict(m=3, k=k, B=4) for k in range(6)] + [dict(m=4, k=k, B=2) for k in range(5)])
def powers(S, m, k, B):
    M = S.mod(P)
    a = S.ints('a', m, -B, B)
    f = M.Polynomial(a)
    r = f**k
    q = f.power_binary(k)
    S.observe(r.coefficients())
    w = [1]
    for _ in range(k):
        w = conv(w, a)
    same(S, r.coefficients(), w, '**')
    same(S, q.coefficients(), w, 'power_binary')
    normal(S, r, '**')
    same(S, f.coefficients(), a, 'the operand was modified')


def values(n, seed):
    return [((i * i * 7 + seed * 13 + i * seed) % 199) - 99 for i in range(n)]


@harness('A01', quick=[dict(n=n, k=k) for n, k in ((6, 3), (10, 2), (13, 3), (20, 2), (34, 2), (7, 6), (5, 9), (2, 25))],
         thorough=[dict(n=n, k=k) for n in (5, 8, 12, 17, 25, 33, 48, 70) for k in (2, 3, 5, 8)])
def powers_long(S, n, k):
    """Longer polynomials: the end coefficients and one inner position vary, the others are listed."""
    M = S.mod(P)
    a = values(n, 5)
    a[0], a[-1] = S.conc(S.int('a', -2, 2)), S.conc(S.int('z', 1, 2))
    j = S.conc(S.int('j', 1, n - 1))
    a[j:j + 2] = [S.conc(S.int('b', -1, 1))] * len(a[j:j + 2])
    r = M.Polynomial(a)**k
    w = [1]
    for _ in range(k):
        w = conv(w, a)
    same(S, r.coefficients(), w, '**')
    same(S, M.Polynomial(a).power_binary(k).coefficients(), w, 'power_binary')


LONG = [(30, 30), (31, 30), (30, 41), (33, 64), (60, 30)]


@harness('A01', t=100, quick=[dict(m=m, n=n) for m, n in LONG + [(29, 60), (61, 61)]],
         thorough=[dict(m=m, n=n) for m, n in LONG + [(29, 60), (61, 61), (30, 120), (121, 60), (64, 64), (90, 95), (119, 121)]])
def long_products(S, m, n):
    """Recursive multiplication: all coefficients of one factor symbolic."""
    M = S.mod(A)
    a = [S.int('a%d' % i) for i in range(m)]
    b = values(n, 5)
    r = M.mul_karatsuba(a, b)
    same(S, r, conv(a, b), 'product')
    q = M.mul_karatsuba(b, a)
    same(S, q, conv(a, b), 'product (swapped)')
    same(S, M.mul_classical(a, b), conv(a, b), 'schoolbook product')


@harness('A01', quick=[dict(m=m, n=n) for m, n in ((0, 2), (1, 1), (2, 4), (5, 3))], thorough=[dict(m=m, n=n) for m in range(7) for n in range(7)])
def list_operations(S, m, n):
    M = S.mod(A)
    a = [S.int('a%d' % i) for i in range(m)]
    b = [S.int('b%d' % i) for i in range(n)]
    pad = max(m, n)
    A0, B0 = a + [0] * (pad - m), b + [0] * (pad - n)
    same(S, M.list_add(a, b), [x + y for x, y in zip(A0, B0)], 'list_add')
    same(S, M.list_subtract(a, b), [x - y for x, y in zip(A0, B0)], 'list_subtract')
    S.check(len(a) == m and len(b) == n, 'the operand was modified')


@harness('A01', quick=[dict(m=m, B=2) for m in (1, 2, 3, 4)], thorough=[dict(m=m, B=3) for m in (1, 2, 3, 4)])
def printed_form(S, m, B):
    """The printed form denotes the polynomial."""
    M = S.mod(P)
    a = S.ints('a', m, -B, B)
    a = [S.conc(x) for x in a]
    t = repr(M.Polynomial(a, 't'))
    e = t.replace('^', '**')
    ok = set(e) <= set('0123456789t+-* ')
    S.check(ok, 'unexpected text')
    for x in (-3, 2, 10):
        S.check(eval(e, {'__builtins__': {}}, {'t': x}) == sum(c * x**i for i, c in enumerate(a)), 'printed form')


HUGE = (2**53 + 1, -(2**60) - 3, 10**18 + 9, 3, -7, 2**100 + 1, -(10**30) - 57, 0, 1, 2**64 - 1, -(2**53) - 1, 10**9 + 7)


def huge(S, n, k, j, v):
    a = [HUGE[(i * 5 + k) % 12] for i in range(n)]
    a[j % n] = v
    if a[-1] == 0:
        a[-1] = 2**70 + 1
    return a


@harness('A01', quick=[dict(m=m, n=n) for m, n in ((1, 3), (3, 4), (6, 6), (33, 31), (40, 66))], thorough=[dict(m=m, n=n) for m in (1, 3, 6, 33, 70) for n in (1, 4, 7, 31, 66)])
def huge_values(S, m, n):
    """Coefficients beyond 2**53, one of them arbitrary in a small range."""
    M = S.mod(P)
    v = S.conc(S.int('v', -2, 2))
    a, b = huge(S, m, 0, m // 2, v), huge(S, n, 3, 1, v + 1)
    f, g = M.Polynomial(a), M.Polynomial(b)
    k = max(m, n)
    A0, B0 = a + [0] * (k - m), b + [0] * (k - n)
    same(S, (f + g).coefficients(), [x + y for x, y in zip(A0, B0)], 'sum')
    same(S, (f - g).coefficients(), [x - y for x, y in zip(A0, B0)], 'difference')
    same(S, (f * g).coefficients(), conv(a, b), 'product')
    same(S, (f * HUGE[v + 5]).coefficients(), [x * HUGE[v + 5] for x in a], 'scalar product')
    S.check(f(10**9 + v) == sum(c * (10**9 + v)**i for i, c in enumerate(a)), 'value')
    if m < 10:
        same(S, (f**3).coefficients(), conv(conv(a, a), a), '**')
        same(S, f.power_binary(3).coefficients(), conv(conv(a, a), a), 'power_binary')


@harness('A01', quick=[dict(c=c, m=m) for c in ('Polynomial', 'PolyZZ') for m in (1, 3)], thorough=[dict(c=c, m=m) for c in ('Polynomial', 'PolyZZ') for m in (1, 2, 3, 4)])
def variable_kept(S, c, m):
    """Results are printed in the variable of the left operand."""
    M = S.mod(P)
    K = getattr(M, c)
    a, b = S.ints('a', m, -2, 2), S.ints('b', 2, -2, 2)
    f, g = K(a, 't'), K(b, 't')
    s = S.int('s', -3, 3)
    rs = [f + g, f - g, -f, f * g, f + s, s + f, f - s, s - f, f * s, s * f, f**0, f**1, f**2, f.power_binary(0), f.power_binary(2)]
    for i, r in enumerate(rs):
        S.check(r.variable == 't', 'the variable of a result (operation %d)' % i)
    if c == 'PolyZZ':
        for i, r in enumerate(rs[:13]):
            S.check(isinstance(r, K), 'the class of a result (operation %d)' % i)


@harness('A01', quick=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)])
def indeterminate(S, n):
    """The constructor without coefficients is the indeterminate; polynomials built from it by Horner's rule."""
    M = S.mod(P)
    x = M.Polynomial()
    S.check(x.coefficients() == [0, 1] and x.degree == 1, 'Polynomial()')
    a = [S.int('a%d' % i, -9, 9) for i in range(n)]
    p = M.Polynomial([0])
    for c in reversed(a):
        p = p * x + c
    v = S.int('v', -3, 3)
    S.check(p(v) == horner(a, v), 'polynomial in the indeterminate')


def horner(a, v):
    r = 0
    for c in reversed(a):
        r = r * v + c
    return r
