#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTES = {}
if os.path.exists(V + '/lib/levels.json'):
    NOTES = json.load(open(V + '/lib/levels.json'))
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
     'notes': 'Specifications in TLA+ (spec/), checked with TLC; drivers/ record the real code, TLC validates the records. See DESIGN.md.'}
for i in ids:
    if i in props.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                            'technique': 'TLA+ specification checked with TLC; trace validation of the real code against it',
                            'level': 'model_checking',
                            'level_note': NOTES.get(i, 'Model exhaustive within small constants; every recorded execution of the real code is checked event by event against the specification.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOTES.get(i, 'not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
