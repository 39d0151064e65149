#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import props

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS + props.NOT_APPLICABLE:
        assert len(p.title) <= 80, p.title
        f.write(json.dumps({'id': p.id, 'title': p.title, 'statement': p.statement, 'quantifier': {'over': p.over, 'text': p.qtext},
                            'why_tests_cant': p.why, 'anchors': {'files': p.files, 'mechanism': [{'name': a, 'where': b} for a, b in p.mech]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': [], 'not_applicable': []}
for p in props.PROPS:
    m['checks'].append({'property': p.id, 'quick_cmd': 'python3 check.py %s quick' % p.id, 'thorough_cmd': 'python3 check.py %s thorough' % p.id,
                        'technique': p.technique, 'level': p.level, 'level_note': p.note})
for p in props.NOT_APPLICABLE:
    m['not_applicable'].append({'property': p.id, 'reason': p.reason})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
