#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, 'bin'))
from manifest_table import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3 bin/setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 bin/check.py %s quick' % p, 'thorough_cmd': 'python3 bin/check.py %s thorough' % p,
                 'technique': CHECKS[p][0], 'level': 'model_checking', 'level_note': CHECKS[p][1]} for p in props if p in CHECKS],
     'not_applicable': [{'property': p, 'reason': 'no check built yet'} for p in props if p not in CHECKS],
     'notes': 'All oracles are TLA+ modules in spec/, evaluated by TLC; no hooks in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
