#!/usr/bin/env python3
"""Writes MANIFEST.json from the contract files present and the reasons below."""
import json, os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
NOTES = json.load(open(os.path.join(HERE, 'level_notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    fs = glob.glob(os.path.join(HERE, 'contracts', i + '*.cpp'))
    if fs and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': './check.py %s' % i,
            'thorough_cmd': './check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification: contracts on the real templates, verification conditions from LLVM IR, z3/cvc5',
            'level': 'proof',
            'level_note': NOTES.get(i, '') + NOTES['*'],
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print([c['property'] for c in checks], 'NA', [x['property'] for x in na])
