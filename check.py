#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]"""
import os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('VERIF_SEED', '1')


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    os.environ['VERIF_TIER'] = 'thorough' if thorough else 'quick'
    from lib import checks
    return checks.run(prop, thorough, int(os.environ.get('VERIF_SEED') or 1))


if __name__ == '__main__':
    sys.exit(main())
