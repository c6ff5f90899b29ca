#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS, NOTES, TECH  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append({
            'property': i,
            'quick_cmd': f'python3 run.py {i} --tier quick',
            'thorough_cmd': f'python3 run.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH.get(i, 'property-based testing: generated and exhaustive inputs against an independent reference model, shrinking to a replay file; libFuzzer in the thorough tier'),
            'level': 'exploration',
            'level_note': NOTES.get(i, 'Every case explored agreed with the oracle; nothing is claimed about inputs that were not generated. Trusts the reference model in harness/ref_*.h, the installed UCD 15.1 text and the compilers.'),
        })
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Checks build the library, tablegen and tools from /repo\'s working tree into /verif/build (git-ignored). No hooks in /repo are needed.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
