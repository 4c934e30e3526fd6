#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS, NOTES
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        n = NOTES[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 run.py check {i} quick', thorough_cmd=f'python3 run.py check {i} thorough',
                                evidence_file=f'evidence/{i}.json', technique=n[0], level=n[2] if len(n) > 2 else 'exploration', level_note=n[1]))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
