#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in pbt/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'pbt', i.lower() + '.py')):
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} --tier quick', thorough_cmd=f'bash check.sh {i} --tier thorough', technique=t[0], level='exploration', level_note=t[1]))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every check drives the public API. DESIGN.md describes each check; known_findings.txt lists repaired and open defects.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
