#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NA

with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
        'technique': p['tech'],
        'level': 'other',
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'claimed,', len(NA), 'not applicable')
