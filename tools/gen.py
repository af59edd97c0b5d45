#!/usr/bin/env python3-vt
"""Generate properties.jsonl and MANIFEST.json from tools/props.py and the check registry."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'tools'), os.path.join(H, 'checks')]
from props import PROPS, NA
from registry import CHECKS
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in CHECKS:
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s --thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['tech'], level='other', level_note=p['note']))
na = [dict(property=i, reason=r) for i, r in NA]
ids = {p['id'] for p in PROPS}
for i, r in NA: assert i in ids, i
assert ids == {c['property'] for c in checks} | {i for i, _ in NA}, ids ^ ({c['property'] for c in checks} | {i for i, _ in NA})
json.dump(dict(version=1, setup_cmd='python3-vt engine/ir.py', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
