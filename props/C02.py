"""Integer partitions and tuples."""
from itertools import product
from symx.run import harness, META, windows
from symx.oracle import *

META['C02'] = dict(bounds='n up to the listed value, every number of parts, distinct or not, every set of up to 3 '
                          'allowed parts (part sizes symbolic); tuples with every list of radixes in the listed range')
P = 'rosemary.combinatorics.generation.partitions'


def parts_of(n, parts, distinct, num):
    parts = sorted(set(parts), reverse=True)

    def go(n, i):
        if n == 0:
            yield []
        for j in range(i, len(parts)):
            if parts[j] <= n:
                for x in go(n - parts[j], j + (1 if distinct else 0)):
                    yield [parts[j]] + x
    return [x for x in go(n, 0) if not num or len(x) == num]


def check(S, r, want, what):
    r = [[S.conc(x) for x in p] for p in r]
    S.observe(r)
    S.check(all(p == sorted(p, reverse=True) for p in r), what + ': parts are not in descending order')
    S.check(sorted(r) == sorted(want), what)


@harness('C02', quick=windows(0, 20, 5), thorough=windows(0, 34, 3))
def unrestricted(S, lo, hi):
    m = S.mod(P)
    n = S.conc(S.int('n', lo, hi))
    check(S, list(m.integer_partitions(n)), parts_of(n, range(1, n + 1), False, 0), 'partitions of n')


@harness('C02', quick=windows(0, 14, 3), thorough=windows(0, 24, 3))
def counted_and_distinct(S, lo, hi):
    m = S.mod(P)
    n = S.conc(S.int('n', lo, hi))
    k = S.conc(S.int('k', 0, n + 1))
    d = S.choice('d', [False, True])
    w = parts_of(n, range(1, n + 1), d, k)
    check(S, list(m.integer_partitions(n, num_parts=k, distinct=d)), w, 'partitions with num_parts and distinct')
    if not k:
        check(S, list(m.integer_partitions(n, distinct=d)), w, 'partitions with distinct')
    if not d:
        check(S, list(m.integer_partitions(n, num_parts=k)), w, 'partitions with num_parts')


CQ = [dict(m=1, lo=0, hi=12), dict(m=2, lo=0, hi=6), dict(m=2, lo=7, hi=8), dict(m=2, lo=9, hi=9)] + \
    [dict(m=3, lo=i, hi=i) for i in (3, 4, 5, 6)]
CT = [dict(m=1, lo=0, hi=30)] + [dict(m=2, lo=i, hi=i) for i in range(17)] + [dict(m=3, lo=i, hi=i) for i in range(11)] + \
    [dict(m=4, lo=i, hi=i) for i in range(8)]


@harness('C02', t=150, quick=CQ, thorough=CT)
def custom_parts(S, m, lo, hi):
    """The allowed parts are symbolic."""
    M = S.mod(P)
    n = S.conc(S.int('n', lo, hi))
    ps = S.ints('p', m, 1, n + 1)
    S.assume(distinct(ps))
    kw = {'parts': list(ps)}
    d = S.choice('d', [None, False, True])
    k = S.choice('k', [None, 1, 2, 3])
    if d is not None:
        kw['distinct'] = d
    if k is not None:
        kw['num_parts'] = k
    r = list(M.integer_partitions(n, **kw))
    S.check(all_f(band(sum_f(p) == n, increasing(p[::-1], d is True)) for p in r), 'a partition does not sum to n in descending parts')
    S.check(all_f(member(x, ps) for p in r for x in p), 'a part is not allowed')
    pv = [S.conc(p) for p in ps]
    check(S, r, parts_of(n, pv, d, k), 'partitions into given parts')


@harness('C02', t=150, quick=[dict(n=n, B=B) for n, B in ((0, 1), (1, 8), (2, 6), (3, 4), (4, 3), (5, 2))], thorough=[dict(n=n, B=B) for n, B in ((1, 20), (2, 12), (3, 6), (4, 4), (5, 3))])
def tuples(S, n, B):
    """All radixes symbolic."""
    M = S.mod('rosemary.combinatorics.generation.tuples')
    ms = S.ints('m', n, 1, B)
    kind = S.choice('kind', ['list', 'int', 'default']) if n else 'list'
    if kind == 'list':
        r = list(M.n_tuples(n, list(ms)))
        mv = [S.conc(x) for x in ms]
    elif kind == 'int':
        r = list(M.n_tuples(n, ms[0]))
        mv = [S.conc(ms[0])] * n
    else:
        r = list(M.n_tuples(n))
        mv = [2] * n
    r = [[S.conc(x) for x in p] for p in r]
    S.observe(r)
    S.check(r == [list(x) for x in product(*[range(v) for v in mv])], 'n_tuples')
