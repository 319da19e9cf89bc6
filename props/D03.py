"""Sieves with prefix sums."""
from symx.run import harness, META
from symx.oracle import *

META['D03'] = dict(bounds='every size in the window, every sequence of the listed number of marking steps, every prefix')
B = 'rosemary.data_structures.bit_sieve'


@harness('D03', t=150, quick=[dict(cls=c, lo=a, hi=b, k=k) for c in ('BITSieve', 'BITSieveArray') for a, b, k in ((1, 6, 3), (7, 12, 2), (13, 20, 2), (21, 40, 1), (64, 66, 1), (127, 128, 1))],
         thorough=[dict(cls=c, lo=a, hi=b, k=k) for c in ('BITSieve', 'BITSieveArray') for a, b, k in ((1, 6, 3), (7, 12, 3), (13, 20, 2), (21, 70, 1))])
def prefix(S, cls, lo, hi, k):
    m = S.mod(B)
    n = S.conc(S.int('n', lo, hi))
    d = getattr(m, cls)(n)
    alive = [0] + [1] * n
    for i in range(k + 1):
        S.check(list(d.entries())[-n:] == alive[1:], cls + ': entries')
        S.check([d.partial_sum(j) for j in range(n + 1)] == [sum(alive[:j + 1]) for j in range(n + 1)], cls + ': partial_sum')
        if i < k:
            p = S.conc(S.int('p%d' % i, 1, n + 1))
            d.mark_multiples(p)
            for j in range(p, n + 1, p):
                alive[j] = 0
    if cls == 'BITSieve':
        d.update()
        S.check([d.partial_sum(j) for j in range(n + 1)] == [sum(alive[:j + 1]) for j in range(n + 1)], cls + ': update')


@harness('D03', t=150, quick=[dict(cls=c, n=n) for c in ('BITSieve', 'BITSieveArray') for n in (7, 13, 16, 30)], thorough=[dict(cls=c, n=n) for c in ('BITSieve', 'BITSieveArray') for n in (40, 63, 64, 100)])
def query(S, cls, n):
    """The prefix stays symbolic."""
    m = S.mod(B)
    d = getattr(m, cls)(n)
    p = S.conc(S.int('p', 2, n + 1))
    d.mark_multiples(p)
    q = S.int('q', 0, n)
    r = d.partial_sum(q)
    S.observe(r)
    S.check(r == q - q // p, cls + ': partial_sum')
