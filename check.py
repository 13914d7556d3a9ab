#!/usr/bin/env python3
"""check.py PROPERTY [--only TEXT] [-v] [--budget S]: decide one property on /repo"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--nproc', type=int, default=int(os.environ.get('SYMX_NPROC', '8')))
    a = ap.parse_args()
    from symx import runner
    budget = a.budget or (150 if a.tier == 'quick' else 780)
    return runner.main(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')), budget, a.only, a.v, a.nproc)


if __name__ == '__main__':
    sys.exit(main())
