#!/usr/bin/env python3
"""check.py <property>: decides one property. Exit 0 held, 1 violated, 2 the check itself failed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import ddv, props

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    try: return ddv.run_check(prop, props.PROPS[prop], tier, seed)
    except ddv.ToolError as e: print('check error:', e); return 2
if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); sys.exit(2)
