#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from lib/props.py"""
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in props.PROPERTIES + [n for n in props.NOT_APPLICABLE]:
        f.write(json.dumps({k: q[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py',
     'checks': [{'property': q['id'], 'quick_cmd': './check.py %s quick' % q['id'], 'thorough_cmd': './check.py %s thorough' % q['id'],
                 'technique': q['technique'], 'level': q['level'], 'level_note': q['note']} for q in props.PROPERTIES],
     'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in props.NOT_APPLICABLE]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
