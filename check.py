"""check.py PROPERTY [--case NAME ...]   (tier and seed from VERIF_TIER and
VERIF_SEED).  Exit 0: holds; 1: VIOLATION; anything else: no answer."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--case', action='append')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    except ValueError:
        seed = 0
    from vf import runner
    if a.selftest:
        from vf import selftest
        return selftest.main()
    if not a.property:
        ap.error('property missing')
    return runner.run_property(a.property, a.tier, seed, a.case, a.v)


if __name__ == '__main__':
    sys.exit(main())
