#!/usr/bin/env python3
"""run one property's check:  run.py C01 [quick|thorough]"""
import os
import signal
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def late(*a):
    from sa.report import OutOfTime
    raise OutOfTime()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.environ['SA_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from sa import loader
    from sa.report import Report, Broken, OutOfTime
    import checks
    R = Report(prop, tier, seed)
    fn = checks.find(prop)
    try:
        P = loader.load()
    except loader.Broken as e:
        print('ERROR: %s cannot be decided on this tree: %s' % (prop, e))
        return 2
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('SA_LIMIT', 240 if tier == 'quick' else 800)))
    try:
        fn(P, R)
        signal.alarm(0)
    except OutOfTime:
        R.undec('time limit reached: the rest was not analysed')
    except Broken as e:
        # the construct the property is anchored in is not there (any more)
        R.undec('not applicable to this tree: %s' % e)
    except Exception as e:
        # a construct the analysis does not handle: no verdict on what depends on it
        traceback.print_exc(limit=-12)
        R.undec('analysis stopped: %s: %s' % (type(e).__name__, e))
    return R.finish()


sys.exit(main())
