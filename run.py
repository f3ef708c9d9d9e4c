#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--budget S] [-v] [--only case ...]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONUTF8'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-X', 'utf8'] + sys.argv)
sys.path.insert(0, HERE)
p = argparse.ArgumentParser()
p.add_argument('prop')
p.add_argument('--tier')
p.add_argument('--budget', type=float)
p.add_argument('-v', action='store_true')
p.add_argument('--only', nargs='*')
a = p.parse_args()
from symx import runner
path = os.path.join(HERE, 'props', a.prop.lower() + '.py')
sys.exit(runner.main(path, a.tier, None, a.budget, a.v, a.only))
