#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks there are."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, 'harness'))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = ('TLC explores the TLA+ specification exhaustively within the bounds in its cfg files and checks the '
        'property on it; every transition found that way, and seeded random histories beyond those bounds, are '
        'performed on a fresh build of the working tree (C and pure-Python implementations) and every recorded '
        'observation is judged by the same specification. Trusted: TLC, the drivers in harness/, CPython. '
        'Not a proof for unbounded histories or unlisted kinds of input.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'harness/props/%s.py' % i.lower())):
        mod = importlib.import_module('props.' + i.lower())
        checks.append({
            'property': i, 'quick_cmd': 'bin/check ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'TLA+ specification checked by TLC; model-generated and random histories '
                         'replayed on the code and the recorded traces validated against the specification',
            'level': getattr(mod, 'LEVEL', 'model_checking'),
            'level_note': getattr(mod, 'NOTE', NOTE)})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo carries only fix: commits. See DESIGN.md.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
