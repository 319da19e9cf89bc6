"""Integer factorization."""
import itertools
from symx.run import harness, META, windows
from symx.oracle import *

META['N07'] = dict(bounds='n any value in the listed windows (including windows above 10^6); for the '
                          'random methods every outcome of the two initial draws; the prime table used by '
                          'trial division is also shortened so that its wheel stage is reached; listed products of two or three primes up to 1.3e15 that pass strong probable prime tests')
F = 'rosemary.number_theory.factorization.factorization'
A = 'rosemary.number_theory.factorization.algorithms'


def is_prime_c(n):
    return n >= 2 and all(n % d for d in range(2, isqrt(n) + 1))


def fac_ok(S, n, f, what):
    """f is the factorization of n > 0: increasing primes, right product."""
    ps = [p for p, e in f]
    S.check(all_f(e >= 1 for p, e in f), what + ': exponent')
    S.check(increasing(ps), what + ': primes not increasing')
    S.check(all_f(is_prime_f(p) for p in ps), what + ': base not prime')
    S.check(prod_f(p**S.conc(e) for p, e in f) == n, what + ': product differs')


W = windows(1, 1600, 100) + [dict(lo=a - 5, hi=a + 5) for a in (2**11, 3**7 * 2, 41**2, 43**2, 5**5, 7**5, 10**5, 311**2)]
TW = windows(1, 12000, 250) + [dict(lo=a - 8, hi=a + 8) for a in (2**20, 3**12, 997**2, 1009**2, 10**6, 10**7, 101**3)]


@harness('N07', quick=W, thorough=TW)
def factor(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    f = m.factor(n)
    S.observe(f)
    fac_ok(S, n, f, 'factor')
    S.check(m.factor_back(f) == n, 'factor_back does not invert factor')


@harness('N07', quick=windows(1, 120, 40), thorough=windows(1, 1000, 50))
def factor_negative(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    f = m.factor(-n)
    S.observe(f)
    S.check(f[0] == (-1, 1), 'sign')
    fac_ok(S, n, f[1:], 'factor of a negative')
    S.check(m.factor_back(f) == -n, 'factor_back')
    S.raises(ValueError, m.factor, 0)


@harness('N07', quick=windows(1, 300, 60), thorough=windows(1, 3000, 100), conc_div=True)
def factor_power_detection(S, lo, hi):
    m = S.mod(F)
    n = S.int('n', lo, hi)
    f = m.factor(n, skip_power_detection=False)
    S.observe(f)
    fac_ok(S, n, f, 'factor with power detection')


BIGF = [(1009, 1009), (1000003, 1000003), (1009, 1000003), (1000003, 1000033), (2, 3, 1000003, 1000033), (1000003,) * 3, (1000003, 1000003, 1000033),
        (1000003, 1000033, 1000037), (10670053, 32010157), (149491, 747451, 34233211), (7, 7, 2**31 - 1, 1000003), (-1, 1000003, 1000033)]


@harness('N07', conc_div=True, t=100, quick=[dict(fs=f) for f in BIGF], thorough=[dict(fs=f) for f in BIGF])
def factor_big(S, fs):
    """Beyond the prime table: concrete n, the table scan runs on real values."""
    m = S.mod(F)
    S.random_mode = 'seeded'
    n = prod_f(fs)
    f = m.factor(n)
    S.observe(f)
    S.check(f == [(p, fs.count(p)) for p in sorted(set(fs))], 'factor of a large number')
    S.check(m.factor_back(f) == n, 'factor_back of a large number')


@harness('N07', conc_div=True, t=60, quick=[dict(k=3, a=0, b=60)], thorough=[dict(k=3, a=i, b=i + 70) for i in range(0, 210, 70)] + [dict(k=4, a=0, b=30)])
def factor_several(S, k, a, b):
    """Products of k primes above the table: the rho stage may first return a composite."""
    m = S.mod(F)
    S.random_mode = 'seeded'
    ps = (1000003, 1000033, 1000037, 1000039, 1000081, 1000099, 1000117, 1000121, 1000133, 1000151)
    fs = S.choice('fs', list(itertools.combinations_with_replacement(ps, k))[a:b])
    n = prod_f(fs)
    f = m.factor(n)
    S.observe(f)
    S.check(f == [(p, fs.count(p)) for p in sorted(set(fs))], 'factor of a product of several large primes')


@harness('N07', quick=windows(2, 900, 150) + [dict(lo=a - 6, hi=a + 6) for a in (1009**2, 1013 * 1019, 10**6, 3**13)],
         thorough=windows(2, 5000, 200) + [dict(lo=a - 9, hi=a + 9) for a in (1009**2, 1013 * 1019, 10**6, 3**13, 2003**2)])
def trial(S, lo, hi):
    a = S.mod(A)
    n = S.int('n', lo, hi)
    d = a.trial_division(n)
    S.observe(d)
    S.check(band(d >= 2, n % d == 0 if type(d) is int else n == d), 'trial_division: not a divisor')
    S.check(all_f(bor(n % p != 0, d <= p) for p in small_primes(isqrt(hi))),
            'trial_division: not the least prime factor')


@harness('N07', quick=windows(2, 400, 100), thorough=windows(2, 2000, 100))
def trial_bound(S, lo, hi):
    a = S.mod(A)
    n = S.int('n', lo, hi)
    b = S.int('b', 1, isqrt(hi) + 2)
    d = a.trial_division(n, b)
    S.observe(d)
    ps = small_primes(isqrt(hi) + 2)
    least = n
    for p in reversed(ps):
        least = ite(band(n % p == 0, b >= p), p, least)
    S.check(d == least, 'trial_division with bound')


@harness('N07', quick=[dict(k=k, lo=lo, hi=lo + 150) for k in (10, 11, 12) for lo in (900, 2000, 3600)],
         thorough=[dict(k=k, lo=lo, hi=lo + 200) for k in range(4, 26) for lo in (400, 900, 2000, 3600, 6000, 9950)])
def trial_wheel(S, k, lo, hi):
    """Wheel stage: the table of primes is cut to its first k entries."""
    a = S.mod(A)
    tab = getattr(a, '_PRIME_LIST', None)
    n = S.int('n', lo, hi)
    try:
        if tab is not None:
            a._PRIME_LIST = tab[:k]
        d = a.trial_division(n)
    finally:
        if tab is not None:
            a._PRIME_LIST = tab
    S.observe(d)
    S.check(all_f(bor(n % p != 0, d <= p) for p in small_primes(isqrt(hi))),
            'trial_division: not the least prime factor')
    S.check(band(d >= 2, bor(d == n, any_f(band(d == p, n % p == 0) for p in small_primes(isqrt(hi))))),
            'trial_division: not a divisor')


def nontrivial(S, n, d, what):
    S.check(band(d >= 1, n % d == 0), what + ': not a divisor')
    S.check(d != 1, what + ': trivial divisor 1')
    S.check(implies(d == n, is_prime_f(n)), what + ': composite reported prime')


@harness('N07', conc_div=True, quick=windows(2, 361, 30), thorough=windows(2, 2500, 100))
def fermat(S, lo, hi):
    a = S.mod(A)
    n = S.int('n', lo, hi)
    d = S.conc(a.fermat(n))
    S.observe(d)
    nontrivial(S, n, d, 'fermat')


@harness('N07', conc_div=True, quick=windows(2, 500, 63) + [dict(lo=a, hi=a + 20) for a in (991 * 2 + 9, 1003 * 3, 11449)],
         thorough=windows(2, 4000, 100))
def lehman(S, lo, hi):
    a = S.mod(A)
    n = S.conc(S.int('n', lo, hi))
    d = a.lehman(n)
    S.observe(d)
    nontrivial(S, n, d, 'lehman')


@harness('N07', conc_div=True, random='nondet', max_rand=2, path_t=25,
         quick=[dict(n=n, f=f) for n in (8, 9, 15, 21, 25) for f in ('pollard_rho_brent', 'pollard_rho')],
         thorough=[dict(n=n, f=f) for n in (6, 8, 9, 10, 15, 21, 25, 27, 33, 35, 49) for f in ('pollard_rho_brent', 'pollard_rho')])
def rho(S, n, f):
    """Every choice of the polynomial constant and of the starting point."""
    a = S.mod(A)
    d = getattr(a, f)(n)
    d = S.conc(d)
    S.observe(d)
    S.check(band(1 < d, d <= n, n % d == 0), f + ': not a divisor')


@harness('N07', quick=windows(4, 200, 25), thorough=windows(4, 1500, 50))
def rho_seeded(S, lo, hi):
    """A run of the full method: combining rho with primality gives the factorization."""
    a = S.mod(A)
    n = S.conc(S.int('n', lo, hi))
    for f in (a.pollard_rho_brent, a.pollard_rho):
        d = f(n)
        S.observe(d)
        S.check(1 < d <= n and n % d == 0, 'rho: not a divisor')
    d = a.pollard_rho(n, 3)
    S.check(1 <= d <= n and n % d == 0, 'rho with an iteration bound')
    g = a.pollard_p_minus_1(n, 50)
    S.observe(g)
    S.check(1 <= g <= n and n % g == 0, 'p-1: not a divisor')


@harness('N07', quick=windows(100, 400, 50) + windows(1000, 1160, 40), thorough=windows(100, 4000, 100))
def cfrac(S, lo, hi):
    a = S.mod(A)
    n = S.conc(S.int('n', lo, hi))
    S.assume(not is_prime_c(n))
    d = a.cfrac(n)
    S.observe(d)
    if d is not None:
        S.check(1 < d < n and n % d == 0, 'cfrac: not a proper divisor')
    elif n % 2 == 0:
        S.check(False, 'cfrac misses the factor 2')


@harness('N07', quick=[dict(base=[-1, 2, 3, 5, 7], B=300), dict(base=[2, 3, 7, 11], B=400), dict(base=[-1, 3, 5], B=200)],
         thorough=[dict(base=[-1, 2, 3, 5, 7, 11], B=4000), dict(base=[2, 3, 7, 11], B=4000), dict(base=[-1, 3, 5], B=2000), dict(base=[2], B=70)])
def smooth(S, base, B):
    a = S.mod(A)
    n = S.int('n', -B if base[0] == -1 else 1, B)
    S.assume(n != 0)
    try:
        e = a.smooth_factor(n, list(base))
    except ValueError:
        # not smooth: some prime outside the base divides n
        q = [p for p in small_primes(B) if p not in base]
        S.check(any_f(n % p == 0 for p in q), 'smooth_factor refuses a smooth number')
        S.reach('rough')
        return
    S.observe(e)
    S.check(len(e) == len(base), 'length')
    S.check(prod_f(b**S.conc(x) for b, x in zip(base, e)) == n, 'smooth_factor: product differs')


@harness('N07', quick=[dict(lo=1, hi=14, ext=40), dict(lo=15, hi=40, ext=30), dict(lo=99, hi=101, ext=60), dict(lo=118, hi=124, ext=130)],
         thorough=windows(1, 130, 10, ext=60) + windows(300, 420, 20, ext=120))
def frange(S, lo, hi, ext):
    m = S.mod(F)
    a = S.conc(S.int('a', lo, hi))
    b = S.conc(S.int('b', lo, hi + ext))
    got = list(m.factored_range(a, b))
    S.observe(got)
    want = [(n, factor_c(n) if n > 1 else [(1, 1)]) for n in range(a, b)]
    S.check(got == want, 'factored_range')


@harness('N07', quick=[dict(top=60)], thorough=[dict(top=300)])
def frange_one(S, top):
    m = S.mod(F)
    b = S.conc(S.int('b', 0, top))
    got = list(m.factored_range(b))
    S.check(got == [(n, factor_c(n) if n > 1 else [(1, 1)]) for n in range(1, b)], 'factored_range(b)')


@harness('N07', conc_div=True, t=60, quick=[dict(a=0, b=14)], thorough=[dict(a=0, b=66)])
def factor_by_fractions(S, a, b):
    """The continued fraction method in the place of the rho method."""
    m = S.mod(F)
    ps = (1000003, 1000033, 1000037, 1000039, 1000081, 1000099, 1000117, 1000121, 1000133, 1000151, 1000159)
    fs = S.choice('fs', list(itertools.combinations_with_replacement(ps, 2))[a:b])
    n = S.choice('k', [1, 12]) * prod_f(fs)
    f = m.factor(n, use_cfrac=True)
    fac_ok(S, n, f, 'factor with use_cfrac')
    S.raises(ValueError, m.factor_back, n, label='factor_back of a number')
