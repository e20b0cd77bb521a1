#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    b = c['bounds']
    checks.append({'property': p, 'quick_cmd': f'python3 run.py {p} --tier quick', 'thorough_cmd': f'python3 run.py {p} --tier thorough',
                   'evidence_file': f'evidence/{p}.json', 'technique': c['technique'], 'level': c['level'],
                   'level_note': (c.get('note', '') + ' Bounds: quick: ' + b[0] + '; thorough: ' + b[1] + '.').strip()})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'machinery for this property is still being built'} for p in props if p not in CHECKS],
     'notes': 'run.py builds every harness against /repo\'s current tree (build cache in .build keyed by a hash of the sources); known_findings.txt lists repaired and recorded defects'}
hooks = os.path.join(V, 'tools', 'hooks.json')
if os.path.exists(hooks):
    m['hooks'] = json.load(open(hooks))
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(m['not_applicable']), 'unclaimed')
