#!/usr/bin/env python3
"""Writes MANIFEST.json from groups.py and properties.jsonl (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from groups import PROPERTY_GROUP, NOTES, TECHNIQUE, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in PROPERTY_GROUP:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECHNIQUE[p], 'level': 'exploration', 'level_note': NOTES[p]})
missing = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')} for p in props if p not in PROPERTY_GROUP]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --self-test', 'checks': checks, 'not_applicable': missing,
           'notes': 'check.py builds the library and the harness from /repo\'s working tree into a temporary directory on every run; see DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'not claimed')
