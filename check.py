#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough] [--only harness] [-v] | --replay FILE | --selftest"""
import argparse
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int)
    ap.add_argument('--serve', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    from symx import run
    if a.serve:
        return run.replay_server(a.pid)
    if a.replay:
        import json
        q = json.load(open(a.replay))
        run.load_props(q['property'])
        print(run.replay_once(q['property'], q['harness'], q['params'], q['values']))
        return 0
    if a.selftest:
        from symx import selftest
        return selftest.main()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return run.check_property(a.pid, tier, seed, a.j, a.v, a.only)


if __name__ == '__main__':
    sys.exit(main())
