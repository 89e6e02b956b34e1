#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.py and workloads.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from properties import PROPERTIES, NOT_APPLICABLE
from workloads import PROPS

with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in PROPERTIES:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in PROPERTIES]
assert len(ids) == len(set(ids))
checks = []
for i in ids:
    if i not in PROPS:
        assert i in NOT_APPLICABLE, i
        continue
    P = PROPS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 /verif/check.py %s quick' % i,
        'thorough_cmd': 'python3 /verif/check.py %s thorough' % i,
        'technique': P.get('technique', 'deterministic simulation: seeded search over schedules, buffering and message timing of the real library on a simulated MPI, against a serial reference model'),
        'level': P.get('level', 'exploration'),
        'level_note': P.get('note', 'Seeded sampling, not exhaustive. Real library code runs unmodified; the MPI library, thread scheduler, clock and heap are simulated. Every violation is minimised and replayed in a fresh process before it is reported.'),
    })
doc = {'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup',
       'checks': checks,
       'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())],
       'notes': 'No hooks in /repo: every seam is a link-time or symbol-interposition seam (MPI calls, pthread, malloc, clock). See DESIGN.md.'}
json.dump(doc, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(doc, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in PROPERTIES:
        jsonschema.validate(p, s)
except ImportError:
    pass
print(len(ids), 'properties,', len(checks), 'checks')
