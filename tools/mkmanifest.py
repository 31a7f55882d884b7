#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness files present."""
import json
import os
import re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{H}/harness/{i.lower()}.py'
    if os.path.exists(f) and i not in NA:
        checks.append({'property': i, 'quick_cmd': f'./check {i} --tier quick', 'thorough_cmd': f'./check {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json',
                       'technique': 'path-exhaustive symbolic execution of the Python source with z3, bounded; counterexamples replayed on the real code',
                       'level': 'model_checking',
                       'level_note': 'Bounded: every value inside the bounds stated in the evidence (harness BOUNDS), nothing outside them.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
