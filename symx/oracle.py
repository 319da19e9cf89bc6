"""Formula builders shared by the harnesses.  All of them work on proxies
without forking, and on plain values in a replay."""
from math import isqrt

from .core import band, bor, bnot, biff, implies, ite, rawb, SymInt, SymBool  # noqa: F401


def hi_of(x):
    return x.hi if type(x) is SymInt else x


def lo_of(x):
    return x.lo if type(x) is SymInt else x


def is_prime_f(x):
    """x is prime, as trial division by every d <= sqrt(bound of x)."""
    if type(x) is not SymInt:
        return x >= 2 and all(x % d for d in range(2, isqrt(x) + 1))
    return band(x >= 2, *[bor(x % d != 0, x == d) for d in small_primes(isqrt(max(x.hi, 1)))])


def small_primes(n):
    return [p for p in range(2, n + 1) if all(p % d for d in range(2, isqrt(p) + 1))]


def sum_f(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def prod_f(xs):
    t = 1
    for x in xs:
        t = t * x
    return t


def count_f(conds):
    t = 0
    for c in conds:
        t = t + ite(c, 1, 0)
    return t


def increasing(xs, strict=True):
    xs = list(xs)
    if strict:
        return band(True, *[xs[i] < xs[i + 1] for i in range(len(xs) - 1)])
    return band(True, *[xs[i] <= xs[i + 1] for i in range(len(xs) - 1)])


def distinct(xs):
    xs = list(xs)
    return band(True, *[xs[i] != xs[j] for i in range(len(xs)) for j in range(i)])


def member(x, xs):
    return bor(False, *[x == y for y in xs])


def all_f(cs):
    return band(True, *list(cs))


def any_f(cs):
    return bor(False, *list(cs))


def max_f(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        m = ite(x > m, x, m)
    return m


def min_f(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        m = ite(x < m, x, m)
    return m


def gcd_is(g, xs, bound):
    """g is the (non-negative) greatest common divisor of xs, |x| <= bound."""
    cs = [g >= 0]
    zero = all_f(x == 0 for x in xs)
    cs.append(biff(g == 0, zero))
    for d in range(2, bound + 1):
        cs.append(implies(all_f(x % d == 0 for x in xs), g % d == 0))
        cs.append(implies(g == d, all_f(x % d == 0 for x in xs)))
    return all_f(cs)


def powmod_f(a, k, m):
    """a**k mod m for concrete m > 0, k >= 0 (no forking)."""
    r = 1 % m
    a = a % m
    while k:
        if k & 1:
            r = r * a % m
        a = a * a % m
        k >>= 1
    return r


def coprime_f(x, m):
    """gcd(x, m) == 1 for concrete m."""
    m = abs(m)
    if m == 1:
        return True
    if m == 0:
        return bor(x == 1, x == -1)
    return all_f(x % p != 0 for p in prime_factors(m))


def prime_factors(m):
    out, d = [], 2
    while d * d <= m:
        if m % d == 0:
            out.append(d)
            while m % d == 0:
                m //= d
        d += 1
    if m > 1:
        out.append(m)
    return out


def factor_c(m):
    out = []
    for p in prime_factors(m):
        k = 0
        while m % p == 0:
            m //= p
            k += 1
        out.append((p, k))
    return out


def table(x, f, lo=None, hi=None):
    """f(x) for a concrete Python function f, as a balanced if-then-else over the
    range of x (no forking)."""
    if type(x) is not SymInt:
        return f(x)
    lo = x.lo if lo is None else lo
    hi = x.hi if hi is None else hi
    vals = [f(v) for v in range(lo, hi + 1)]

    def build(a, b):
        if a == b or all(v == vals[a] for v in vals[a:b + 1]):
            return vals[a]
        m = (a + b) // 2
        return ite(x <= lo + m, build(a, m), build(m + 1, b))
    return build(0, hi - lo)
