#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/config.py and the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/harness')
from config import CHECKS
sys.path.pop(0)
NOTE = {}
exec(open(HERE + '/harness/levels.py').read())
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    tech, note = NOTE[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'technique': tech, 'level': 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q check.py harness/config.py',
     'hooks': {'guard': 'DVOLE_VERIF_HOOKS, DVOLE_VERIF_RESEED_INTERVAL',
               'enable': 'check.py compiles the sources with -DDVOLE_VERIF_HOOKS and /verif/harness on the include path (C01-C03, C09), and the bit generator with -DDVOLE_VERIF_RESEED_INTERVAL=<n> (C15); nothing is defined in the ordinary build',
               'source_commits': ['0d36002', '5641456']},
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'no check is registered yet (under construction)'} for p in props if p not in CHECKS]}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in m['not_applicable']])
