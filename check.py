#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from osmg import facts

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        from osmg import checks
        sys.exit(checks.run(pid, tier))
    except facts.BuildFailed as e:
        print('ERROR: the analysed tree could not be compiled:\n%s' % e)
        sys.exit(2)
