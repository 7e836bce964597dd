#!/usr/bin/env python3
"""Writes MANIFEST.json from what checks.py defines."""
import json
import os
import re
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(root, 'checks.py')).read()
have = set(re.findall(r'^def (C\d\d)\(', src, re.M))
NOTE = json.load(open(os.path.join(root, 'tools', 'notes.json')))
checks, na = [], []
for ln in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(ln)['id']
    if p in have:
        t, n = NOTE[p]
        checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': p, 'reason': NOTE.get(p, ['', 'not built yet'])[1]})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ with TLC; see DESIGN.md. No hooks: the harnesses in harness/ include /repo/include directly and instrument through template parameters and specialisation.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
