#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from checks import table            # noqa: E402
from vf import runner               # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.exit(runner.check(a.prop, a.tier, int(os.environ.get('VERIF_SEED', '1')), table.TABLE[a.prop], only=a.only, verbose=a.v))


if __name__ == '__main__':
    main()
