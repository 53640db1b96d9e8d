"""Writes MANIFEST.json from properties.jsonl and the check modules present."""

import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

NOTE = ('Held on every execution this run produced (counted in the evidence file), nothing more: a run-time monitor '
        'says nothing about inputs it did not draw. Trusts CPython and the oracle in vmon/checks/{m}.py. ')

checks, missing = [], []
with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    for line in f:
        pid = json.loads(line)['id']
        if not os.path.exists(os.path.join(ROOT, 'vmon', 'checks', pid.lower() + '.py')):
            missing.append({'property': pid, 'reason': 'check not built yet'})
            continue
        mod = importlib.import_module('vmon.checks.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': f'VERIF_TIER=quick bin/check {pid}',
            'thorough_cmd': f'VERIF_TIER=thorough bin/check {pid}',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'run-time monitoring: ' + mod.TECHNIQUE,
            'level': mod.LEVEL,
            'level_note': NOTE.format(m=pid.lower()) + 'Assumes: ' + '; '.join(mod.ASSUMPTIONS) + '.',
        })
out = {'version': 1, 'setup_cmd': 'sh bin/setup', 'checks': checks, 'not_applicable': missing,
       'notes': 'Pure Python harness, standard library only; imports the code under test from /repo/src on every '
                'run. No hooks in /repo. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not claimed')
