"""Prime sieves."""
from symx.run import harness, META, windows
from symx.oracle import *

META['N10'] = dict(bounds='the limit n (and both ends of a range) any value in the listed windows')
P = 'rosemary.number_theory.primes.sieves'
_L = []


def plist(n):
    if not _L or _L[0] < n:
        f = bytearray([1]) * (n + 1)
        f[:2] = b'\0\0'
        for d in range(2, isqrt(n) + 1):
            if f[d]:
                f[d * d::d] = bytes(len(range(d * d, n + 1, d)))
        _L[:] = [n, [i for i in range(n + 1) if f[i]]]
    return _L[1]


def upto(n, a=0):
    from bisect import bisect_left, bisect_right
    L = plist(max(n, 1000))
    return L[bisect_left(L, a):bisect_right(L, n)]


SIEVES = ('primes', 'eratosthenes1', 'eratosthenes2', 'luo', 'chartres', 'pritchard')


def near(xs, r, **kw):
    return [dict(kw, lo=a - r, hi=a + r) for a in xs]


@harness('N10', quick=windows(-6, 260, 34) + near((289, 361, 529, 841, 961, 1849, 2809), 2),
         thorough=windows(-20, 2600, 60) + near((p * p for p in small_primes(150)), 6))
def sieve_lists(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    x = S.int('x', -1, hi + 1)
    r = m.primes(n)
    S.check(increasing(r), 'primes: not sorted')
    S.check(biff(member(x, r), band(x <= n, is_prime_f(x))), 'primes: wrong list')
    n = S.conc(n)
    for f in SIEVES:
        r = getattr(m, f)(n)
        S.observe(len(r))
        S.check(increasing(r), f + ': not sorted')
        S.check(biff(member(x, r), band(x <= n, is_prime_f(x))), f + ': wrong list')


@harness('N10', t=100, quick=near((999983, 1000002, 1018081, 1042441), 1), thorough=near((999983, 10**6, 1018081, 1042441, 1100000), 7))
def beyond_the_table(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    r = m.primes(n)
    v = S.conc(n)
    S.observe(v, len(r))
    S.check([S.conc(x) for x in r] == upto(v), 'primes around the end of the prime table')


@harness('N10', t=100, quick=windows(-3, 120, 42) + near((78497,), 3),
         thorough=windows(-3, 1000, 120) + near((78497, 80000, 78600), 12))
def first_n(S, lo, hi):
    m = S.mod(P)
    k = S.int('k', lo, hi)
    r = m.primes_first_n(k)
    v = S.conc(k)
    S.observe(v, len(r))
    L = plist(1100000)
    S.check([S.conc(x) for x in r] == L[:max(v, 0)], 'primes_first_n')


@harness('N10', quick=[dict(A=-2, B=26), dict(A=20, B=44), dict(A=110, B=134), dict(A=999975, B=999990)],
         thorough=[dict(A=a, B=a + 50) for a in (-4, 40, 90, 500, 999960, 9999950)])
def ranges(S, A, B):
    m = S.mod(P)
    a, b = S.int('a', A, B), S.int('b', A, B)
    S.assume(a < b)
    r = list(m.prime_range(a, b))
    x = S.int('x', A - 1, B + 1)
    S.observe(r)
    S.check(increasing(r), 'prime_range: not sorted')
    S.check(biff(member(x, r), all_f([a <= x, x < b, is_prime_f(x)])), 'prime_range: wrong list')


@harness('N10', quick=windows(1, 80, 40), thorough=windows(1, 600, 100))
def range_one_argument(S, lo, hi):
    m = S.mod(P)
    n = S.int('n', lo, hi)
    r = list(m.prime_range(n))
    v = S.conc(n)
    S.check([S.conc(x) for x in r] == upto(v - 1), 'prime_range(n)')


def is_p(n):
    return n > 1 and all(n % d for d in range(2, isqrt(n) + 1))


@harness('N10', t=120, quick=[dict(A=10**7 + 1, B=10**7 + 12), dict(A=3163**2 - 5, B=3163**2 + 6), dict(A=3169**2 - 5, B=3169**2 + 6)],
         thorough=[dict(A=10**7 - 10, B=10**7 + 22)] + [dict(A=p * p - 9, B=p * p + 16) for p in (3163, 3167, 3169, 3181, 5003)])
def segmented(S, A, B):
    """Short ranges above 10**7, where the segmented sieve runs."""
    m = S.mod(P)
    a, b = S.int('a', A, B), S.int('b', A, B)
    S.assume(a < b)
    S.assume(bor(b - a > 1, a % 2 == 1))
    va, vb = S.conc(a), S.conc(b)
    r = list(m.prime_range(va, vb))
    S.observe(r)
    S.check([S.conc(x) for x in r] == [x for x in range(va, vb) if is_p(x)], 'prime_range above 10**7')


@harness('N10', t=120, quick=[dict(A=p - 2, B=p + 2) for p in (3, 3137, 3163, 3169)], thorough=[dict(A=p - 4, B=p + 4) for p in (7, 1009, 3121, 3137, 3163, 3167, 3169, 3181)])
def segmented_low_start(S, A, B):
    """A start below sqrt(b) with b above 10**7: the first primes are checked."""
    m = S.mod(P)
    a = S.int('a', A, B)
    v = S.conc(a)
    e = ((A + B) // 2)**2
    g = m.prime_range(v, S.choice('end', [e - 1, e, e + 1, e + 2 * v]) if e > 10**7 else 10**7 + 50)
    got = []
    for p in g:
        if p > 3500:
            break
        got.append(S.conc(p))
    S.observe(got[:5])
    S.check(got == upto(3500, v), 'prime_range from below sqrt(b)')


def window_primes(a, b):
    f = bytearray([1]) * (b - a)
    for p in upto(isqrt(b)):
        s = max(p * p, a + -a % p) - a
        f[s::p] = bytes(len(range(s, b - a, p)))
    return [a + i for i in range(b - a) if f[i]]


@harness('N10', t=120, quick=[dict(A=10**7 - 1, B=10**7 + 2, blocks=3), dict(A=10**7 + 49999, B=10**7 + 50001, blocks=2),
                              dict(A=3 * 10**7 + 7, B=3 * 10**7 + 9, blocks=4), dict(A=3000, B=3002, blocks=0)],
         thorough=[dict(A=a, B=a + 9, blocks=k) for a in (10**7, 10**7 + 99990, 23456789, 10**8 + 5) for k in (2, 3, 5)])
def segmented_blocks(S, A, B, blocks):
    """Ranges spanning several blocks of the segmented sieve."""
    m = S.mod(P)
    a = S.conc(S.int('a', A, B))
    b = (a + 16 * isqrt(a) * blocks if blocks else 10**7 + 70000) + S.conc(S.int('e', 0, 3))
    r = list(m.prime_range(a, b))
    S.observe(len(r))
    want = window_primes(a, b)
    S.check(len(r) == len(want), 'prime_range over several blocks: wrong length')
    S.check(r == want, 'prime_range over several blocks')
