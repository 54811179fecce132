#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and sim/plan.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.plan import PLAN  # noqa: E402

NA = {}
NOTE = ('Seeded search: the property held on every simulated run explored; no claim beyond them. Trusts the simulated services and the '
        'reference model in /verif/sim, and libsecp256k1.')

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        checks.append({
            'property': i, 'quick_cmd': '/opt/venv/bin/python check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection (seeded search, history checked against a reference model)',
            'level': 'exploration', 'level_note': PLAN[i].get('note', '') + (' ' if PLAN[i].get('note') else '') + NOTE,
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {
    'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: every seam is below it (urllib3 transport, clock, randomness, multiprocessing). '
             'Replay a reported violation with ./check.py --replay FILE.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
