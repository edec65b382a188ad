#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(f'{root}/properties.jsonl')]
src = open(f'{root}/harness/src/props/mod.rs').read()
have = set(re.findall(r'"(C\d\d)" =>', src))
NOTES = {}
exec(open(f'{root}/tools/notes.py').read(), NOTES)
T, N = NOTES['TECH'], NOTES['NOTE']
checks = []
for p in props:
    if p not in have:
        continue
    checks.append({
        'property': p,
        'quick_cmd': f'./run.sh {p} quick',
        'thorough_cmd': f'./run.sh {p} thorough',
        'technique': T.get(p, T['default']),
        'level': 'model_checking',
        'level_note': N.get(p, '') + (' ' if p in N else '') + N['default'],
    })
m = {
    'version': 1,
    'setup_cmd': './run.sh build',
    'checks': checks,
    'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in have],
    'notes': 'No hooks in /repo are needed: everything is driven through the public API. See DESIGN.md.',
}
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
open(f'{root}/MANIFEST.json', 'a').write('\n')
