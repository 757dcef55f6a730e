#!/usr/bin/env python3
"""check.py <property> [-v] [--thorough] [only-label]: decides one property of /repo by static analysis."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa import driver
from sa.model import AnalysisBroken
import importlib


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('sa.rules.' + pid.lower())
    try:
        return driver.main(mod, sys.argv[2:])
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
