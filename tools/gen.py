#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(p['title']) <= 80, p['id']
        d['quantifier'] = {'over': p['over'], 'text': p['forall']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash tools/check.sh ' + p['id'],
        'thorough_cmd': 'bash tools/check.sh ' + p['id'],
        'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they load /repo\'s current source, type-check it, build SSA and analyse that. Nothing of /repo is executed. No hooks are needed.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
