#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and bins.txt from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
root = os.path.join(os.path.dirname(__file__), '..')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': "./san.sh quick" if p['id'] == 'C40' else f"./run.sh {p['id']} quick",
        'thorough_cmd': "./san.sh thorough" if p['id'] == 'C40' else f"./run.sh {p['id']} thorough",
        'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS if p.get('bin')],
    'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if not p.get('bin')],
    'notes': 'Replay: ./run.sh <id> --replay <file>. DESIGN.md describes the monitors, their oracles, the defects found and the planted bugs.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
with open(os.path.join(root, 'bins.txt'), 'w') as f:
    for p in PROPS:
        if p.get('bin'):
            f.write(f"{p['id']} {p['bin']}\n")
