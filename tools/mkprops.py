#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py (kept in one place so they stay in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA, HOOKS, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + [n for n in NA]:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p.get('obs', []), hook_needed=p.get('hook')))
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='true', checks=[dict(property=p['id'], quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough",
         evidence_file=f"evidence/{p['id']}.json", technique=p['tech'], level=p['level'], level_note=p['note']) for p in PROPS],
         not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA], notes=NOTES)
if HOOKS: m['hooks'] = HOOKS
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
