#!/usr/bin/env python3
"""Generates MANIFEST.json: every property with a harness module is claimed."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = V + '/harness/%s.py' % p.lower()
    if not os.path.exists(f):
        na.append(dict(property=p, reason='check under construction'))
        continue
    m = re.search(r"^BOUNDS = '(.*)'$", open(f).read(), re.M)
    checks.append(dict(property=p, quick_cmd='python3-vt harness/check.py %s quick' % p, thorough_cmd='python3-vt harness/check.py %s thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique='symbolic execution of the compiled program (LLVM IR of /repo) with z3; oracle assertions decided per path by z3; counterexamples replayed on the native binary',
                       level='model_checking', level_note='Holds for all inputs within the bounds: ' + m.group(1)))
m = dict(version=1, setup_cmd='python3-vt harness/build.py', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
