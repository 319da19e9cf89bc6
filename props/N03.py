"""Chinese remaindering."""
from symx.run import harness, META
from symx.oracle import *
from math import gcd
from itertools import combinations, permutations

META['N03'] = dict(bounds='every residue (any integer), moduli tuples as listed per instance')
C = 'rosemary.number_theory.core'


def tuples(k, top):
    return [list(t) for t in combinations(range(1, top), k)
            if all(gcd(a, b) == 1 for a, b in combinations(t, 2))]


def chunks(xs, n, **kw):
    return [dict(kw, moduli=xs[i::n]) for i in range(n) if xs[i::n]]


def pairs(top):
    return [list(t) for t in permutations(range(1, top), 2) if gcd(*t) == 1]


Q = chunks([[m] for m in range(1, 30)], 1) + chunks(pairs(13), 4) + chunks(tuples(3, 10), 3) + \
    chunks([[5, 9, 8, 7], [3, 4, 5, 7, 11], [16, 27, 25], [64, 81, 125, 49], [101, 3, 2], [2, 101, 55], [12, 35, 1]], 7)
T = chunks([[m] for m in range(1, 200)], 2) + chunks(pairs(30), 16) + chunks(tuples(3, 20), 16) + \
    chunks(tuples(4, 14), 8) + Q[-7:]


@harness('N03', quick=Q, thorough=T)
def crt(S, moduli):
    c = S.mod(C)
    for mi, ms in enumerate(moduli):
        rs = [S.int('r%d_%d' % (mi, i)) for i in range(len(ms))]
        M = 1
        for m in ms:
            M *= m
        cong = list(zip(rs, ms))
        x = c.chinese(list(cong))
        S.observe(x)
        S.check(band(0 <= x, x < M), 'chinese: not reduced %s' % ms)
        for r, m in cong:
            S.check((x - r) % m == 0, 'chinese: wrong residue %s' % ms)
        if min(ms) > 1 or ms[0] == min(ms) == 1 and sorted(ms)[1:2] != [1]:
            if all(m > 1 for m in ms[1:]):
                data = c.crt_preconditioning_data(list(ms))
                y = c.chinese_preconditioned(list(cong), data)
                S.observe(y)
                S.check(x == y, 'preconditioned CRT differs %s' % ms)
                # the data may be used again
                z = c.chinese_preconditioned([(r + 1, m) for r, m in cong], data)
                S.check((z - x - 1) % M == 0, 'preconditioning data reused %s' % ms)


@harness('N03', quick=[dict(lo=2, hi=12)], thorough=[dict(lo=2, hi=20)])
def not_coprime(S, lo, hi):
    c = S.mod(C)
    ms = [S.conc(S.int('m%d' % i, lo, hi)) for i in range(3)]
    cong = [(S.int('r%d' % i), ms[i]) for i in range(3)]
    ok = all(gcd(a, b) == 1 for a, b in combinations(ms, 2))
    if not ok:
        S.raises(ValueError, c.chinese, cong)
        S.raises(ValueError, c.crt_preconditioning_data, ms)
    else:
        x = c.chinese(cong)
        S.check(all_f((x - r) % m == 0 for r, m in cong), 'chinese')


BIGM = ([10**9 + 7, 10**9 + 9, 998244353], [2**61 - 1, 2**31 - 1], [2**20, 3**20, 5**12, 7**10], [2, 3, 5, 7, 11, 13, 17, 19, 23, 29], [10**6, 999999, 1000003], [2**64, 10**18 + 9])


@harness('N03', conc_div=True, quick=[dict(k=k) for k in range(len(BIGM))], thorough=[dict(k=k) for k in range(len(BIGM))])
def large_moduli(S, k):
    """Moduli whose product is far beyond 2**53 and systems of many congruences."""
    c = S.mod(C)
    ms = BIGM[k]
    M = 1
    for m in ms:
        M *= m
    r = S.choice('r', ['small', 'top', 'mixed', 'negative'])
    t = S.conc(S.int('t', -2, 2))
    rs = [dict(small=i + t, top=m - 1 - i + t, mixed=m // (i + 2) + t, negative=-i - m // 3 + t)[r] for i, m in enumerate(ms)]
    for name, x in (('chinese', c.chinese(list(zip(rs, ms)))), ('chinese_preconditioned', c.chinese_preconditioned(list(zip(rs, ms)), c.crt_preconditioning_data(list(ms))))):
        S.check(0 <= x < M and all((x - a) % m == 0 for a, m in zip(rs, ms)), name + ' with large moduli')
