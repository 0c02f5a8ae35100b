#!/usr/bin/env python3
"""Usage: check.py PID [--thorough]      decide one property from the source in /repo."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    from analysis import report
    from analysis.loader import AnalysisError
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        res = mod.run(tier)
    except AnalysisError as e:
        print('ERROR: %s: %s' % (pid, e))
        return 2
    return report.finish(pid, res, getattr(mod, 'LEVEL', 'other'), t0, tier, mod.MINIMUM, mod.TECHNIQUE, mod.ASSUMPTIONS)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(3)
