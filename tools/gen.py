#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}, ensure_ascii=False) + '\n')
na = dict(NOT_APPLICABLE)
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
               'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE],
               'notes': 'No hooks in /repo. check.sh runs the explorer (mc/run.py) under /opt/venv/bin/python against /repo as it stands.'}, f, indent=1)
    f.write('\n')
