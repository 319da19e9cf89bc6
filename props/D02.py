"""Disjoint sets: every history of unions up to a length."""
import random
from symx.run import harness, META
from symx.oracle import *

META['D02'] = dict(bounds='every sequence of the listed number of unions and finds over the listed number of elements '
                          '(the operands of each step are symbolic and decided by the solver); longer histories in which all but the listed number of steps are fixed')
U = 'rosemary.data_structures.unionfind'


def agree(S, find, part, n, what):
    names = [find(i) for i in range(n)]
    S.check(all((names[i] == names[j]) == (part[i] == part[j]) for i in range(n) for j in range(n)), what + ': wrong sets')
    return names


def rejoin(part, a, b):
    return [part[b] if p == part[a] else p for p in part]


UQ = [dict(n=3, k=3, how=h, finds=f) for h in ('names', 'elements') for f in (False, True)] + \
     [dict(n=4, k=3, how=h, finds=f, a=a) for a in range(4) for h, f in (('names', False), ('elements', False), ('elements', True))] + \
     [dict(n=5, k=2, how='mixed', finds=False)]
UT = [dict(n=5, k=3, how=h, finds=f, a=a) for a in range(5) for h, f in (('names', False), ('elements', False), ('elements', True), ('mixed', False))] + \
     [dict(n=4, k=4, how=h, finds=f, a=a) for a in range(4) for h, f in (('names', False), ('elements', False), ('elements', True))]


@harness('D02', t=200, quick=UQ, thorough=UT)
def unions(S, n, k, how, finds, a=None):
    m = S.mod(U)
    d = m.UnionFind(range(n))
    part = list(range(n))
    for i in range(k):
        x = S.conc(S.int('a%d' % i, 0, n - 1)) if i or a is None else a
        y = S.conc(S.int('b%d' % i, 0, n - 1))
        if how == 'names' or how == 'mixed' and S.bool('c%d' % i):
            d.union(d.find(x), d.find(y))
        else:
            d.union(x, y)
        part = rejoin(part, x, y)
        if finds:
            names = agree(S, d.find, part, n, 'find')
    names = agree(S, d.find, part, n, 'find')
    S.check(all(part[x] == part[i] for i, x in enumerate(names)), 'find: the name is not an element of the set')
    S.check(agree(S, d.find, part, n, 'find') == names, 'find: the name changed')
    S.observe(names)


NQ = [dict(n=3, k=2, finds=f) for f in (False, True)] + [dict(n=4, k=3, finds=f, a=a) for a in range(4) for f in (False, True)] + [dict(n=5, k=2, finds=False)]
NT_ = [dict(n=5, k=3, finds=f, a=a) for a in range(5) for f in (False, True)]


@harness('D02', t=200, quick=NQ, thorough=NT_)
def named(S, n, k, finds, a=None):
    m = S.mod(U)
    d = m.NamedUnionFind(range(n))
    part, name = list(range(n)), list(range(n))
    for i in range(k):
        x = S.conc(S.int('a%d' % i, 0, n - 1)) if i or a is None else a
        y = S.conc(S.int('b%d' % i, 0, n - 1))
        S.assume(part[x] != part[y])
        u, v = d.find(x), d.find(y)
        w = S.choice('w%d' % i, ['first', 'second', 'new'])
        w = u if w == 'first' else v if w == 'second' else 'set%d' % i
        d.union(u, v, w)
        part = rejoin(part, x, y)
        name = [w if p == part[x] else o for p, o in zip(part, name)]
        if finds:
            S.check([d.find(x) for x in range(n)] == name, 'find: wrong name')
    got = [d.find(x) for x in range(n)]
    S.observe(got)
    S.check(got == name, 'find: wrong name')


@harness('D02', t=100, quick=[dict(n=n, k=k, seed=s) for n, k, s in ((8, 6, 1), (9, 8, 2), (10, 9, 3), (7, 10, 4))], thorough=[dict(n=n, k=k, seed=s, j=2) for n, k, s in ((8, 7, 5), (9, 8, 6), (12, 11, 7), (7, 12, 8))])
def long_history(S, n, k, seed, j=1):
    """A long history of unions of which j are symbolic, for both structures."""
    m = S.mod(U)
    r = random.Random(seed)
    sym = set(r.sample(range(k), j))
    d, e = m.UnionFind(range(n)), m.NamedUnionFind(range(n))
    part, name = list(range(n)), list(range(n))
    for i in range(k):
        x, y = (S.conc(S.int('a%d' % i, 0, n - 1)), S.conc(S.int('b%d' % i, 0, n - 1))) if i in sym else (r.randrange(n), r.randrange(n))
        if r.random() < .5:
            d.union(x, y)
        else:
            d.union(d.find(x), d.find(y))
        if part[x] != part[y]:
            u, v = e.find(x), e.find(y)
            w = [u, v, 'set%d' % i][r.randrange(3)]
            e.union(u, v, w)
            name = [w if p in (part[x], part[y]) else o for p, o in zip(part, name)]
        part = rejoin(part, x, y)
        if r.random() < .3:
            agree(S, d.find, part, n, 'find')
            S.check([e.find(z) for z in range(n)] == name, 'find: wrong name')
    names = agree(S, d.find, part, n, 'find')
    S.check(all(part[x] == part[i] for i, x in enumerate(names)), 'find: the name is not an element of the set')
    S.check([e.find(z) for z in range(n)] == name, 'find: wrong name')
