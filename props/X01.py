"""Calls leave the containers they are given as they were."""
from symx.run import harness, META
from symx.calls import T, call, snap, same

META['X01'] = dict(bounds='the listed public functions; list entries, weights and sizes symbolic within the ranges of symx/calls.py')


@harness('X01', t=60, const_hash=True, random='seeded', quick=[dict(f=f) for f in sorted(T)], thorough=[dict(f=f) for f in sorted(T)])
def unchanged(S, f):
    e = T[f]
    args = e['build'](S, 'A')
    before = snap(args)
    S.observe(snap(call(S, e, args)))
    S.check(same(snap(args), before), f + ': an argument was changed')
