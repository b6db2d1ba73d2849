#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
T = {}
exec(open('tools/checks.py').read(), {'T': T})
checks, na = [], []
for p in props:
    i = p['id']
    if i not in T:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    technique, level, note = T[i]
    checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
                   'evidence_file': f'evidence/{i}.json', 'technique': technique, 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': './check.sh --build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check goes through public interfaces, the command line program and the built Python module. Replay: ./check.sh --replay FILE.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
