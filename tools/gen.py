#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import P, NA, NOTE
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 2, d['id']
        d['quantifier'] = {'over': p['over'], 'text': p['for']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        if p.get('observe'): d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in P:
    if p['id'] in NA: m['not_applicable'].append({'property': p['id'], 'reason': NA[p['id']]}); continue
    m['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check %s --thorough' % p['id'],
        'technique': p['tech'], 'level': 'other', 'level_note': p.get('note', '') + ' ' + NOTE})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
