#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    c = config.PROPS.get(i)
    if c is None:
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 tools/check.py %s quick' % i,
        'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'static analysis: ' + config.technique(c),
        'level': c['level'],
        'level_note': c['note'],
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': config.NA.get(i, 'not covered yet')} for i in ids if i not in config.PROPS],
    'notes': 'See DESIGN.md. Every check compiles the witnesses in wit/ against the current tree of /repo and analyses the '
             'resulting intermediate representation; nothing of /repo is executed.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
