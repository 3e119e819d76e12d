#!/usr/bin/env python3
"""check.py PROPERTY...: decides properties of /repo's current tree by static analysis."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import report
from sa.build import AnalysisBroken


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':     # the same order of sets, hence the same report, on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args == ['all']:
        args = sorted(m[:-3].upper() for m in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa/checks'))
                      if m[0] == 'p' and m[1:3].isdigit() and m.endswith('.py'))
    from sa.ir import Program
    rc = 0
    prog = None
    try:
        prog = Program()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2
    for p in args:
        rep = report.Report(p, tier, seed)
        try:
            m = importlib.import_module('sa.checks.' + p.lower())
            m.run(prog, rep)
            r = report.finish(rep, m.EXPLANATION)
        except AnalysisBroken as e:
            print('ANALYSIS-BROKEN: property=%s %s' % (p, e))
            r = 2
            if report.unlisted(rep):
                r = report.finish(rep, m.EXPLANATION)
        except Exception:
            traceback.print_exc()
            print('ANALYSIS-BROKEN: property=%s internal error' % p)
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
