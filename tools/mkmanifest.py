#!/usr/bin/env python3-vt
"""regenerate MANIFEST.json from specs/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/vcg', V + '/specs']
import props, importlib, task
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
na = []
for i in ids:
    P = props.PROPS.get(i)
    if not P:
        na.append({'property': i, 'reason': props.NA.get(i, 'no contract specified yet: check under construction')})
        continue
    for m in P['specs']:
        importlib.import_module(m)
    th = [t.name + ': ' + t.doc for t in task.TASKS if i in t.props]
    c = {'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
         'technique': 'contract-based deductive verification of the real code (VC generation from LLVM IR, z3/cvc5)' +
                      ('; bounded native stand-in: ' + ', '.join(P['harness']) if P.get('harness') else ''),
         'level': P['level'], 'level_note': P['note']}
    if P['level'] == 'proof':
        c['theorems'] = th
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Genuine defects repaired in /repo are listed in KNOWN_FINDINGS.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not claimed')
