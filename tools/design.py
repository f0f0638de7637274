#!/opt/venv/bin/python
"""Rebuild DESIGN.md: tools/design_text.md followed by the tables of repairs and planted changes."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, 'tools', 'design_text.md'), encoding='utf8') as handle:
    text = handle.read()
rows = []
for name in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(name, encoding='utf8') as handle:
        meta = json.load(handle)
    rows.append(f'| {os.path.basename(os.path.dirname(name))} | {meta["what_it_breaks"]} | {meta["needs"]} | {meta.get("caught_by", meta["property"])} |')
text = text.replace('@SEEDED@', '| change | what it breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows))
fixes = []
with open(os.path.join(HERE, 'known_findings.txt'), encoding='utf8') as handle:
    for line in handle:
        if line.startswith('fixed: property='):
            prop, commit, what = line[len('fixed: property='):].strip().split(' ', 2)
            fixes.append((prop, commit, what))
fixes.sort()
text = text.replace('@FIXES@', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(f'| {p} | {c} | {w} |' for p, c, w in fixes))
text = text.replace('@NFIX@', str(len(fixes))).replace('@NSEED@', str(len(rows)))
with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf8') as handle:
    handle.write(text)
