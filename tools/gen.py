#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
V = os.path.dirname(here)
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None},
        }) + '\n')
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Checks build the real sources of /repo (through wrapper manifests in crates/) against stand-ins for the dependencies that are not available offline (shims/). No hooks in /repo. See DESIGN.md.'}
for p in PROPS:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': f"bash /verif/check.sh {p['id']}",
            'thorough_cmd': f"VERIF_TIER=thorough bash /verif/check.sh {p['id']}",
            'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']})
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
