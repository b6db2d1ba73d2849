#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, checks.py, the rules in the evidence files and the two prose files."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
T = {}; exec(open(here + '/checks.py').read())
out = [open(here + '/design_head.md').read()]
for l in open(top + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    rule = json.load(open(f'{top}/evidence/{i}.json'))['coverage']['rule']
    out.append(f"\n### {i}. {p['title']}\n\n{p['statement']}\n\nTechnique: {T[i][0]}.\n")
    for r in rule.split('\n'):
        m = re.match(r'\[(.*?)\] (.*)', r)
        out.append(f"* *{m[1]}*: {m[2]}.")
    out.append(f"\nLimits: {T[i][2]}")
out.append(open(here + '/design_tail.md').read())
out.append("| planted bug | caught by | needs |\n|---|---|---|")
for b in sorted(os.listdir(top + '/seeded')):
    m = json.load(open(f'{top}/seeded/{b}/meta.json'))
    out.append(f"| {b} | {m['property']} | {m['needs']} |")
out.append(open(here + '/design_end.md').read())
open(top + '/DESIGN.md', 'w').write('\n'.join(out))
