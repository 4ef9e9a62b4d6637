#!/usr/bin/env python3
"""check.py C03 [quick|thorough] [-v] [--only SUBSTR]   |   check.py replay FILE"""
import os
import sys
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY, '-W', 'ignore'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)
from vc import run      # noqa: E402

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'replay':
        sys.exit(run.replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    rest = a[1:]
    while rest:
        x = rest.pop(0)
        if x in ('quick', 'thorough'):
            tier = x
        elif x == '-v':
            verbose = True
        elif x == '--only':
            only = rest.pop(0)
    sys.exit(run.run(a[0], tier, only, verbose))
