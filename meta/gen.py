#!/usr/bin/env python3
"""Rewrites /verif/properties.jsonl and /verif/MANIFEST.json from meta/propdata.py and meta/claims.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from propdata import PROPS
from claims import CLAIMS, NA
ROOT = os.path.dirname(HERE)
with open(ROOT + '/properties.jsonl', 'w') as f:
    for k in sorted(PROPS):
        assert len(PROPS[k]['title']) <= 80, k
        f.write(json.dumps(PROPS[k]) + '\n')
assert set(CLAIMS) | set(NA) == set(PROPS), (set(PROPS) - set(CLAIMS) - set(NA), set(CLAIMS) & set(NA))
assert not set(CLAIMS) & set(NA), set(CLAIMS) & set(NA)
checks = []
for k in sorted(CLAIMS):
    tech, note = CLAIMS[k]
    checks.append({'property': k, 'quick_cmd': 'python3 analysis/run.py %s --tier quick' % k,
                   'thorough_cmd': 'python3 analysis/run.py %s --tier thorough' % k,
                   'technique': tech, 'level': 'other', 'level_note': note})
man = {'version': 1, 'setup_cmd': 'python3 analysis/setup.py', 'checks': checks,
       'not_applicable': [{'property': k, 'reason': NA[k]} for k in sorted(NA)]}
json.dump(man, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
