#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and contracts/levels.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(H, 'contracts', 'levels.json')))
notes = json.load(open(os.path.join(H, 'contracts', 'notes.json')))
checks = []
for line in open(os.path.join(H, 'properties.jsonl')):
    q = json.loads(line)
    i = q['id']
    checks.append(dict(
        property=i,
        quick_cmd='python3-vt check.py %s --tier quick' % i,
        thorough_cmd='python3-vt check.py %s --tier thorough' % i,
        technique='contract-based deductive verification of the real functions (symbolic '
                  'execution against contracts, normal-form and z3 back ends), contracts '
                  'replayed on concrete inputs',
        level=lv.get(i, 'other'),
        level_note=notes.get(i) or notes['default']))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[]),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
