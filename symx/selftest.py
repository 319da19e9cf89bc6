"""Checks of the engine: a true assertion is discharged, a false one refuted and replayed, and the
observed values of path models agree with plain Python."""
import multiprocessing as mp
from . import run


def main():
    import z3
    run.load_props('Z99')
    from props.Z99 import EXPECT
    bad = []
    for h in run.HARNESSES['Z99']:
        with mp.get_context('fork').Pool(1, initializer=run._init_worker) as pool:
            r = pool.apply(run.run_instance, (('Z99', h.name, {}, 'quick', 30),))
        got = 'error %s' % r['error'] if 'error' in r else 'violation' if r['violations'] else None
        if got is None and (r['incomplete'] or r['mismatches'] or r['unconfirmed'] or not r['checks']):
            got = str((r['incomplete'], r['mismatches'], r['unconfirmed'], r['checks']))
        if got != EXPECT[h.name]:
            bad.append(h.name)
            print('selftest %s: expected %s, got %s' % (h.name, EXPECT[h.name], got))
    print('selftest: z3 %s, %d harnesses, %d failed' % (z3.get_version_string(), len(EXPECT), len(bad)))
    return 1 if bad else 0
