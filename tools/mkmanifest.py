#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: one check per property that has a specification or a harness."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = 'contract-based deductive verification of the real code (VC generation from the clang AST, z3/cvc5)'
NOTES = json.load(open(V + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i)
    if n is None or not os.path.exists('%s/harness/%s.cpp' % (V, i)):
        na.append({'property': i, 'reason': (n or {}).get('na', 'no check built yet')})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': n.get('technique', T), 'level': n['level'], 'level_note': n['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'hooks': {'guard': 'HEU_VERIF_NONE', 'enable': 'no hooks: nothing in /repo is guarded', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
