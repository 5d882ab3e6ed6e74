#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from
tools/properties_src.py (what is claimed) and tools/checks_src.py (how it is decided)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import properties_src, checks_src

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in properties_src.P:
        f.write(json.dumps(p) + '\n')

checks, na = [], []
for p in properties_src.P:
    c = checks_src.CHECKS.get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': checks_src.NOT_APPLICABLE.get(
            p['id'], 'no check built yet')})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick bash run.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c[0], 'level': 'model_checking', 'level_note': c[1]})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': checks_src.NOTES}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
