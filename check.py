#!/usr/bin/env python3
"""check.py Cxx: runs the check of a property (VERIF_SEED, VERIF_TIER).  check.py replay FILE: replays a recorded violation."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(10000)
import engine, props


def main():
    all_ = props.all_props()
    try:
        if sys.argv[1] == 'build':
            print(engine.build())
            return 0
        if sys.argv[1] == 'replay':
            return engine.replay(all_, sys.argv[2])
        return engine.run_check(all_[sys.argv[1]], int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'))
    except engine.HarnessError as e:
        print('ERROR: %s' % e)
        return 2


sys.exit(main())
