#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
T = {}
exec(open(os.path.join(root, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        tech, note = T[i]
        checks.append({
            'property': i,
            'quick_cmd': f'sh check.sh {i} quick',
            'thorough_cmd': f'sh check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': tech,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': 'not built yet'})
m = {'version': 1, 'setup_cmd': 'sh harness/build.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
