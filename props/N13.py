"""Tables and sums of arithmetic functions, preimages of the totient."""
from symx.run import harness, META, windows
from symx.oracle import *
from .N12 import phi, mu, sigma

META['N13'] = dict(bounds='n (or both ends of a range) any value in the listed windows, k in 0..3; listed n up to 10**5')
L = 'rosemary.number_theory.arithmetic_functions.sieves'
U = 'rosemary.number_theory.arithmetic_functions.sums'
I = 'rosemary.number_theory.arithmetic_functions.inverse_functions'
_C = {}


def memo(f, n, *k):
    if (f, n, k) not in _C:
        _C[f, n, k] = f(n, *k)
    return _C[f, n, k]


def near(xs, r, **kw):
    return [dict(kw, lo=a - r, hi=a + r) for a in xs]


@harness('N13', quick=windows(1, 130, 22) + near((169, 256, 289, 343, 361), 2),
         thorough=windows(1, 1000, 60) + near((31**2, 1024, 3**7, 37**2), 5))
def lists(S, lo, hi):
    m = S.mod(L)
    n = S.int('n', lo, hi)
    v = S.conc(n)
    i = S.int('i', 0, v)
    P, M, T = m.euler_phi_list(v), m.moebius_list(v), m.tau_list(v)
    S.observe(v, P, M, T)
    for name, t, f, a in (('euler_phi_list', P, phi, ()), ('totient_list', m.totient_list(v), phi, ()),
                          ('moebius_list', M, mu, ()), ('tau_list', T, sigma, (0,)),
                          ('sigma_list', m.sigma_list(v), sigma, (1,)), ('sigma_list(., 0)', m.sigma_list(v, 0), sigma, (0,)),
                          ('sigma_list(., 2)', m.sigma_list(v, 2), sigma, (2,)), ('sigma_list(., 3)', m.sigma_list(v, 3), sigma, (3,))):
        S.check(len(t) == v + 1, name + ': length')
        S.check(table(i, lambda j: t[j]) == table(i, lambda j: memo(f, j, *a) if j else 0), name)


@harness('N13', t=100, quick=[dict(n=10**4), dict(n=10**4 + 1)], thorough=[dict(n=10**4), dict(n=10**4 + 1), dict(n=12345)])
def long_sigma_list(S, n):
    """Either side of the switch of method, at a symbolic index."""
    m = S.mod(L)
    i = S.int('i', 1, n)
    t = m.sigma_list(n)
    for w in (list(range(1, 25)), list(range(n - 24, n + 1))):
        S.check(all(t[j] == sigma(j, 1) for j in w), 'sigma_list')
    r = [0] * (n + 1)
    for d in range(1, n + 1):
        for j in range(d, n + 1, d):
            r[j] += d
    S.check(t[1:] == r[1:], 'sigma_list')


@harness('N13', quick=[dict(A=-1, B=18), dict(A=15, B=35), dict(A=40, B=54), dict(A=115, B=130)],
         thorough=[dict(A=a, B=a + 30) for a in (-2, 20, 40, 110, 160, 280, 1010)])
def moebius_range(S, A, B):
    m = S.mod(L)
    a, b = S.int('a', A, B), S.int('b', A, B)
    r = list(m.moebius_range(a, b))
    va, vb = S.conc(a), S.conc(b)
    S.observe(r)
    S.check([(S.conc(x), S.conc(y)) for x, y in r] == [(j, mu(j)) for j in range(max(va, 1), vb)], 'moebius_range')


@harness('N13', quick=windows(1, 130, 30), thorough=windows(1, 700, 80))
def moebius_range_one(S, lo, hi):
    m = S.mod(L)
    n = S.int('n', lo, hi)
    r = list(m.moebius_range(n))
    v = S.conc(n)
    S.check([(S.conc(x), S.conc(y)) for x, y in r] == [(j, mu(j)) for j in range(1, v)], 'moebius_range(n)')


SUMS = (('euler_phi_sum', lambda j: memo(phi, j)), ('totient_sum', lambda j: memo(phi, j)),
        ('euler_phi_weighted_sum', lambda j: j * memo(phi, j)), ('moebius_sum', lambda j: memo(mu, j)),
        ('mertens', lambda j: memo(mu, j)), ('sigma_sum', lambda j: memo(sigma, j, 1)))


@harness('N13', quick=windows(1, 130, 22) + near((169, 225, 256, 400, 529), 2),
         thorough=windows(1, 900, 45) + near((31**2, 1024, 37**2, 2500), 5))
def sums(S, lo, hi):
    m = S.mod(U)
    n = S.int('n', lo, hi)
    r = [getattr(m, f)(n) for f, _ in SUMS]
    v = S.conc(n)
    S.observe(v, r)
    for (f, g), x in zip(SUMS, r):
        S.check(S.conc(x) == sum(g(j) for j in range(1, v + 1)), f)


@harness('N13', quick=windows(1, 1200, 150), thorough=windows(1, 12000, 500))
def sigma_sum(S, lo, hi):
    """Kept symbolic: n ranges over whole intervals with one square root."""
    m = S.mod(U)
    n = S.int('n', lo, hi)
    r = m.sigma_sum(n)
    S.observe(r)
    base = sum(memo(sigma, j, 1) for j in range(1, lo))
    acc, vals = base, {}
    for j in range(lo, hi + 1):
        acc += memo(sigma, j, 1)
        vals[j] = acc
    v = S.conc(n)
    S.check(S.conc(r) == vals[v], 'sigma_sum')


_INV = {}


def preimages(n):
    """phi(m) >= sqrt(m / 2), so m <= 2 n^2; for the sizes here m <= 6 n suffices
    (n < 10^4: m/phi(m) < 6)."""
    top = 6 * n + 10
    if not _INV or _INV['top'] < top:
        top = max(top, 1500)
        t = list(range(top + 1))
        for p in range(2, top + 1):
            if t[p] == p:
                for j in range(p, top + 1, p):
                    t[j] -= t[j] // p
        inv = {}
        for j in range(1, top + 1):
            inv.setdefault(t[j], []).append(j)
        _INV.update(top=top, inv=inv)
    return _INV['inv'].get(n, [])


@harness('N13', quick=windows(1, 160, 20) + near((240, 288, 480, 504), 2) + near((720, 1440, 2880, 5040, 8640), 0), thorough=windows(1, 800, 40) + near((960, 1152, 1440, 2016), 3))
def inverse_phi(S, lo, hi):
    m = S.mod(I)
    n = S.int('n', lo, hi)
    a = m.euler_phi_inverse(n)
    b = m.inverse_phi(n)
    v = S.conc(n)
    S.observe(v, a)
    S.check([S.conc(x) for x in a] == preimages(v), 'euler_phi_inverse')
    S.check([S.conc(x) for x in b] == preimages(v), 'inverse_phi')


@harness('N13', quick=windows(2, 100, 50), thorough=windows(2, 600, 100))
def inverse_from_factorization(S, lo, hi):
    m = S.mod(I)
    n = S.conc(S.int('n', lo, hi))
    S.check(m.euler_phi_inverse(factor_c(n)) == preimages(n), 'euler_phi_inverse of a factorization')


@harness('N13')
def domain(S):
    n = S.int('n', None, 0)
    m, u, i = S.mod(L), S.mod(U), S.mod(I)
    for g in (m.euler_phi_list, m.moebius_list, m.tau_list, m.sigma_list, u.euler_phi_sum, u.moebius_sum,
              u.sigma_sum, u.euler_phi_weighted_sum, i.euler_phi_inverse):
        S.raises(ValueError, g, n)
    k = S.int('k', None, -1)
    S.raises(ValueError, m.sigma_list, 5, k)


_BIG = {}


def tables(n):
    """Prefix sums of phi, j phi(j), mu and sigma by a plain sieve."""
    if not _BIG:
        N = 10**5 + 20
        p, mu_, sg = list(range(N + 1)), [1] * (N + 1), [0] * (N + 1)
        for d in range(1, N + 1):
            for j in range(d, N + 1, d):
                sg[j] += d
            if d > 1 and p[d] == d:
                for j in range(d, N + 1, d):
                    p[j] -= p[j] // d
                    mu_[j] = -mu_[j]
                for j in range(d * d, N + 1, d * d):
                    mu_[j] = 0
        acc = [0, 0, 0, 0]
        rows = [tuple(acc)]
        for j in range(1, N + 1):
            acc = [acc[0] + p[j], acc[1] + j * p[j], acc[2] + mu_[j], acc[3] + sg[j]]
            rows.append(tuple(acc))
        _BIG.update(rows=rows, phi=p, mu=mu_, sigma=sg)
    return _BIG


@harness('N13', t=100, conc_div=True, quick=[dict(n=n, o=o) for n in (2000, 3721, 9999, 10**4, 40000, 65536, 10**5) for o in (-1, 0, 1)], thorough=[dict(n=n, o=o) for n in (2000, 3721, 9999, 10**4, 40000, 65536, 10**5) for o in range(-4, 5)])
def sums_large(S, n, o):
    m = S.mod(U)
    n = S.conc(S.int('n', n + o, n + o))
    w = tables(n)['rows'][n]
    for f, i in (('euler_phi_sum', 0), ('totient_sum', 0), ('euler_phi_weighted_sum', 1), ('moebius_sum', 2), ('mertens', 2), ('sigma_sum', 3)):
        S.check(getattr(m, f)(n) == w[i], f)


@harness('N13', t=100, conc_div=True, quick=[dict(n=n) for n in (1000, 1369, 2310, 5041)], thorough=[dict(n=n) for n in (1000, 1369, 2310, 5041, 10**4, 30030)])
def lists_large(S, n):
    m = S.mod(L)
    n = S.conc(S.int('n', n, n + 1))
    t = tables(n)
    S.check(list(m.euler_phi_list(n))[1:] == t['phi'][1:n + 1], 'euler_phi_list')
    S.check(list(m.moebius_list(n))[1:] == t['mu'][1:n + 1], 'moebius_list')
    S.check(list(m.sigma_list(n))[1:] == t['sigma'][1:n + 1], 'sigma_list')
    T = [0] * (n + 1)
    for d in range(1, n + 1):
        for j in range(d, n + 1, d):
            T[j] += 1
    S.check(list(m.tau_list(n))[1:] == T[1:], 'tau_list')
    a = n - S.conc(S.int('w', 0, 40))
    S.check(list(m.moebius_range(a, n)) == [(j, t['mu'][j]) for j in range(a, n)], 'moebius_range')
