#!/usr/bin/env python3
"""Write MANIFEST.json: a check for every property suites.CHECKS decides, the rest not applicable (yet)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import suites
TECH = 'TLA+ specification (TLC): bounded model checking of the machine, replay of its behaviours and trace validation of recorded runs'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in suites.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': suites.NOTES.get(i, 'Every answer of every recorded public call is judged by TLC against the specification; seeded histories, so exhaustive only within the model-checked bounds. Trusts the driver, the renaming in lib/enc.py and TLC.')})
    else:
        na.append({'property': i, 'reason': suites.NOT_APPLICABLE.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
