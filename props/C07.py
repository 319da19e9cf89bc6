"""Alphametics: the digits stay symbolic, so completeness is over all assignments."""
from itertools import product
from symx.run import harness, META
from symx.oracle import *

META['C07'] = dict(bounds='every puzzle word + word = word (and the listed shapes with other numbers of words) whose letters '
                          'follow the listed lengths, up to renaming of letters, with at most the listed number of different '
                          'letters; for each, all 10**letters digit assignments at once in the solver')
A = 'rosemary.combinatorics.recreational.alphametics'


def patterns(lengths, maxl):
    """Canonical letter patterns of the given total length."""
    def go(done, used):
        if len(done) == sum(lengths):
            yield done
            return
        for c in range(min(used + 1, maxl)):
            yield from go(done + [c], max(used, c + 1))
    return [''.join('QXBYT'[c] for c in p) for p in go([], 0)]


def cut(s, lengths):
    out = []
    for n in lengths:
        out.append(s[:n])
        s = s[n:]
    return out


Q = [dict(l=[1], r=[1], maxl=2), dict(l=[1, 1], r=[1], maxl=3), dict(l=[1, 1], r=[2], maxl=3), dict(l=[2, 1], r=[2], maxl=3), dict(l=[2, 2], r=[2], maxl=2),
     dict(l=[2], r=[1, 1], maxl=3), dict(l=[1, 1, 1], r=[2], maxl=3), dict(l=[2, 2], r=[3], maxl=3), dict(l=[2, 2], r=[2], maxl=3), dict(l=[1, 1], r=[2], maxl=4), dict(l=[3, 2], r=[3], maxl=2)]


@harness('C07', t=150, quick=Q, thorough=[dict(l=[2, 1], r=[2], maxl=5), dict(l=[2, 2], r=[3], maxl=4), dict(l=[3, 1], r=[3], maxl=3), dict(l=[3, 3], r=[4], maxl=2), dict(l=[2, 1, 1], r=[2], maxl=3)])
def puzzles(S, l, r, maxl):
    m = S.mod(A)
    s = S.choice('pattern', patterns(l + r, maxl))
    words = cut(s, l + r)
    lhs, rhs = words[:len(l)], words[len(l):]
    letters = sorted(set(s))
    sols = [(list(a), list(b)) for a, b in m.solve(lhs, rhs)]
    S.observe(sorted(sols))
    d = {c: S.int('digit_' + c, 0, 9) for c in letters}
    val = lambda w: sum_f(d[c] * 10**(len(w) - 1 - i) for i, c in enumerate(w))
    ok = band(distinct([d[c] for c in letters]), band(all_f(d[w[0]] >= 1 for w in words),
              sum_f(val(w) for w in lhs) == sum_f(val(w) for w in rhs)))
    found = any_f(all_f(val(w) == v for w, v in zip(words, a + b)) for a, b in sols)
    S.check(implies(ok, found), 'a solution is missing')
    S.check(implies(found, ok), 'something is not a solution')
    S.check(len({(tuple(a), tuple(b)) for a, b in sols}) == len(sols), 'a solution is repeated')
    # every listed pair of lists is one digit per letter
    for a, b in sols:
        dig = {}
        S.check(all(len(str(v)) == len(w) and all(dig.setdefault(c, x) == x for c, x in zip(w, str(v)))
                    for w, v in zip(words, a + b)), 'a letter stands for two digits')
        S.check(len(set(dig.values())) == len(dig) and sum(a) == sum(b), 'two letters share a digit or the sums differ')
