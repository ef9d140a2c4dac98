#!/usr/bin/env python3
'''Writes /verif/MANIFEST.json'''
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
from levels import LEVELS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    lv, tech, note = LEVELS[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': tech, 'level': lv, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': [], 'notes': 'No hooks: contracts are sidecar files in /verif, extracted functions come from /repo on every run.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
