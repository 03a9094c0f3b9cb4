#!/usr/bin/env python3
"""run.py <id> [--tier quick|thorough] [--seed N] [--scale F]   |   run.py --replay FILE"""
import argparse
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from vlib import runner  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
ap.add_argument('--scale', type=float, default=1.0)
ap.add_argument('--workers', type=int, default=8)
ap.add_argument('--replay')
a = ap.parse_args()
if a.replay:
    sys.exit(runner.replay(a.replay))
rc = 0
for i in a.ids:
    rc = max(rc, runner.main(i, a.tier, a.seed, a.workers, a.scale))
sys.exit(rc)
