#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import runner
p = sys.argv[1]
if len(sys.argv) > 2: runner.TIER = sys.argv[2]
only = sys.argv[3:]
m = importlib.import_module(p.lower())
g = m.scenarios(runner.TIER)
if only: g = [x for x in g if x['name'] in only]
runner.run_check(p, g, bounds=m.BOUNDS)
