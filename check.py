#!/usr/bin/env python3
"""Entry point of every registered check: python3 /verif/check.py <property> --tier quick|thorough"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import check      # noqa: E402

sys.exit(check.main())
