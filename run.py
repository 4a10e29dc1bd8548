#!/usr/bin/env python3
"""run.py check <property> [quick|thorough]   -- decides one property
   run.py replay <property> <case file>      -- runs one recorded case again (harness based checks)"""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import vt

if __name__ == '__main__':
    if len(sys.argv) < 3: sys.exit(__doc__)
    prop = sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    mod = importlib.import_module(prop.lower())
    sys.exit(vt.main(prop, mod.LEVEL, mod.run, tier))
