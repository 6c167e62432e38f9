#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from table import PROPS, HOOKS
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id','title','statement','quantifier','why_tests_cant','anchors')}, ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['id']
checks, na = [], []
for p in PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']}); continue
    checks.append({'property': p['id'], 'quick_cmd': f"./check.sh {p['id']} quick", 'thorough_cmd': f"./check.sh {p['id']} thorough",
        'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': HOOKS, 'checks': checks, 'not_applicable': na,
     'notes': 'One harness (harness/, crate vmon) runs the real code in monitored worker processes; see DESIGN.md.'}
if not HOOKS: del m['hooks']
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
