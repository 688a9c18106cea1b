#!/opt/venv/bin/python
"""run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('MKL_NUM_THREADS', '1')
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import argparse
from mon import core

if __name__ == '__main__':
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    a.add_argument('--replay')
    a.add_argument('--jobs', type=int)
    o = a.parse_args()
    sys.exit(core.main(o.prop.upper(), o.tier, int(o.seed), o.replay, o.jobs))
