#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--episodes', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from mon import runner
    sys.exit(runner.replay(a.replay) if a.replay
             else runner.run(a.prop, a.tier, a.seed, a.workers, a.episodes))
