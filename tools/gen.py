#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props_*.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props = []
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith('props_') and f.endswith('.py')):
    props += __import__(m).P
props.sort(key=lambda p: p['id'])
na = json.load(open(os.path.join(here, 'not_applicable.json')))
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=p.get('hook')))) + '\n')
    for p in na:
        q = p.get('prop')
        if q:
            f.write(json.dumps(q) + '\n')
hooks = json.load(open(os.path.join(here, 'hooks.json')))
man = dict(version=1, setup_cmd='bash /verif/setup.sh', hooks=hooks, checks=[dict(
    property=p['id'], quick_cmd='VERIF_TIER=quick bash /verif/check.sh ' + p['id'],
    thorough_cmd='VERIF_TIER=thorough bash /verif/check.sh ' + p['id'],
    technique=p['technique'], level=p['level'], level_note=p['note']) for p in props],
    not_applicable=[dict(property=p['property'], reason=p['reason']) for p in na])
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
