#!/usr/bin/env python3
"""Writes DESIGN.md: doc/design_head.md, bounds and assumptions of the harnesses, planted bugs (doc/bugs.txt: output of trybugs.sh)."""
import ast
import glob
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)['id']: json.loads(l) for l in open(f'{H}/properties.jsonl')}


def consts(name):
    out = {}
    for n in ast.parse(open(f'{H}/harness/{name}.py').read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                if isinstance(n.value, ast.Attribute):
                    out[n.targets[0].id] = consts(n.value.value.id).get(n.value.attr)
    return out


t = open(f'{H}/doc/design_head.md').read()
t += '\n## 6. Bounds and assumptions per property (from the harnesses)\n'
for i, p in props.items():
    c = consts(i.lower())
    t += f"\n### {i} {p['title']}\n\n{p['statement']}\n\nBounds: {c.get('BOUNDS')}\n"
    if c.get('ASSUMPTIONS'):
        t += '\nLeft open or assumed: ' + ' '.join(c['ASSUMPTIONS']) + '\n'
    t += f"\nParameters: {c.get('PARAMS')}\n"
t += '\n## 7. Planted bugs\n\nEach is a patch in `seeded/` with a demonstration; found: the quick check of its property reports it.\n\n'
res = {}
for l in open(f'{H}/doc/bugs.txt') if os.path.exists(f'{H}/doc/bugs.txt') else ():
    w = l.split()
    if len(w) > 3:
        res[w[0]] = ('found in ' + w[3]) if w[2] == 'exit=1' else 'missed'
t += '| bug | property | needs | breaks | result |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(f'{H}/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    t += f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(i, '')} |\n"
open(f'{H}/DESIGN.md', 'w').write(t)
