"""Self-test harnesses of the engine itself (no rosemary code): see symx/selftest.py."""
from symx.run import harness
from symx.oracle import *

EXPECT = {'arith_int': None, 'arith_bv': None, 'refuted': 'violation', 'branchy_ok': None,
          'crash': 'violation', 'loop': None, 'fork_set': None, 'symbolic_list': None}


def ops(x):
    return (x + 3, 7 - x, x * x, -x, abs(x), x // 5, x % 5, x // -3, x % -3, divmod(x, 7), x**3,
            x == 4, x < 9, 0 <= x, bool(x), x << 2, x >> 1, x & 6, x | 9, x ^ 5)


@harness('Z99')
def arith_int(S):
    x = S.int('x')
    S.assume(x * x < 200)
    r = (x + 3, 7 - x, x * x, -x, x // 5, x % 5, divmod(x, 7))
    S.observe(*r)
    S.check(5 * (x // 5) + x % 5 == x)
    S.check(band(0 <= x % 5, x % 5 < 5))
    S.check(band(-3 < x % -3, x % -3 <= 0))


@harness('Z99')
def arith_bv(S):
    x = S.int('x', -40, 40)
    y = S.conc(S.int('y', -40, 40) % 11)
    S.observe(*ops(x))
    S.check(bor(x < y, x >= y))
    S.check((x + y) * (x - y) == x * x - y * y)
    S.check((x & 7) == x % 8)
    if x > 17:
        S.observe(x - 1)
        S.check(x * 2 > 34)


@harness('Z99')
def refuted(S):
    x = S.int('x', 0, 10**6)
    S.check(x * x != 123456 * 123456)


@harness('Z99')
def branchy_ok(S):
    xs = S.ints('x', 3)
    ys = list(xs)
    for i in range(3):
        for j in range(2 - i):
            if ys[j] > ys[j + 1]:
                ys[j], ys[j + 1] = ys[j + 1], ys[j]
    S.observe(ys)
    S.check(increasing(ys, False))
    S.check(sum(ys) == sum_f(xs))


@harness('Z99')
def crash(S):
    x = S.int('x', 0, 500)
    S.check(1000 // (x - 77) < 1001)


@harness('Z99')
def loop(S):
    n = S.int('n', 0, 12)
    t, i = 0, 0
    while i < n:
        i += 1
        t += i
    S.observe(t)
    S.check(2 * t == n * (n + 1))


@harness('Z99')
def fork_set(S):
    x, y = S.int('x', 0, 5), S.int('y', 0, 5)
    d = {x: 'a'}
    S.check(biff(y in d, x == y))


@harness('Z99')
def symbolic_list(S):
    L = [10, 20, 30, 40]
    i = S.int('i', 0, 3)
    v = L[i]
    S.observe(v)
    S.check(v == 10 * i + 10)
