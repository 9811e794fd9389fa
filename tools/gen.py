#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the property table of DESIGN.md."""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
from props import P
import registry
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        n = len(re.findall(r'[.;]\s|\.$', p['statement'].replace(';', ',')))
        assert n <= 3, (p['id'], n)
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}) + '\n')
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
checks, na = [], []
for p in sorted(P, key=lambda p: p['id']):
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    assert p['id'] in registry.REG, p['id']
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3-vt /verif/check.py %s quick' % p['id'],
        'thorough_cmd': 'python3-vt /verif/check.py %s thorough' % p['id'],
        'evidence_file': '/verif/evidence/%s.json' % p['id'],
        'technique': 'bounded symbolic execution of the clang IR of the real code, every path and assertion decided by z3/cvc5; counterexamples replayed natively',
        'level': 'other',
        'level_note': 'Bounded symbolic check. Bounds: ' + p['bounds'] + ('. ' + p['note'] if p['note'] else ''),
    })
assert set(registry.REG) == {p['id'] for p in P if not p['na']}, set(registry.REG) ^ {p['id'] for p in P}
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
d = open(V + '/DESIGN.md').read() if os.path.exists(V + '/DESIGN.md') else '<!-- table -->\n<!-- /table -->\n'
t = ['| id | property | harness entries | bounds |', '|---|---|---|---|']
for p in sorted(P, key=lambda p: p['id']):
    if p['na']:
        t.append('| %s | %s | not applicable | %s |' % (p['id'], p['title'], p['na']))
        continue
    us = registry.REG[p['id']]
    t.append('| %s | %s | %s: %s | %s |' % (p['id'], p['title'], ', '.join(sorted({u.harness for u in us})),
             ', '.join(dict.fromkeys(u.entry for u in us)), p['bounds']))
d = re.sub(r'<!-- table -->.*<!-- /table -->', lambda m: '<!-- table -->\n' + '\n'.join(t) + '\n<!-- /table -->', d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
