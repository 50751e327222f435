#!/usr/bin/env python3
"""writes MANIFEST.json from the rules that exist and the table below"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from rules import all as R
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in R.RULES:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
            'technique': R.TECHNIQUE.get(i, R.TECHNIQUE['']),
            'level': 'other', 'level_note': R.NOTE.get(i, R.NOTE['']),
        })
    else:
        na.append({'property': i, 'reason': R.NOT_APPLICABLE.get(i, 'not decided by this machinery yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check analyses the MIR of /repo as it is when the check starts; see DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
