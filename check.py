#!/usr/bin/env python3
"""Decide one property of the nvector sources:  python3 check.py P04

Reads the current sources below NVSTAT_ROOT (default /repo/src); nothing of the package is
imported or executed.
"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main(argv):
    from nvstat.report import Report, finish
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    root = os.environ.get('NVSTAT_ROOT', '/repo/src')
    mod = importlib.import_module('nvstat.rules.%s' % pid.lower())
    rep = Report(pid, tier)
    if tier == 'thorough':
        from nvstat import poly
        poly.deepen()
    funcs = ()
    try:
        funcs = mod.check(rep, root) or ()
    except Exception as e:
        traceback.print_exc()
        if not rep.counts:
            print('ERROR: the analysis of %s did not complete' % pid)
            return 2
        rep.undecide('analysis', None, 'the rest of the rule', 'internal error %s: %s' % (type(e).__name__, e))
    return finish(rep, 'other', mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', ()), funcs)


if __name__ == '__main__':
    import threading
    threading.stack_size(256 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv)))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
