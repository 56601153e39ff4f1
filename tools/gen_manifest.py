#!/usr/bin/env python3
"""Writes MANIFEST.json (run from /verif): every property with a harness is claimed."""
import ast
import glob
import json
import os
props = [json.loads(l) for l in open('properties.jsonl')]
have = set()
for f in glob.glob('harness/h_*.py'):
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'harness':
            have.add(n.args[0].value)
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or i not in have:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt run.py %s quick' % i,
        'thorough_cmd': 'python3-vt run.py %s thorough' % i,
        'technique': 'symbolic execution of the real Python source; SMT (z3, nonlinear real arithmetic) decides every branch and assertion',
        'level': 'model_checking',
        'level_note': 'Holds for every input within the stated bounds, under exact real arithmetic in place of floats and exact '
                      'models of numpy/shapely; counterexamples and path witnesses are replayed on the real code and libraries.'})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. The symbolic executor imports /repo\'s current source on every run (symex/), harnesses are in '
              'harness/. Exit 2 means no answer (solver unknown, construct not modelled, counterexample not reproduced).'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
