#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the property tables and the coverage rules in evidence/."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
d = os.path.join(here, 'design')
rules_f = os.path.join(d, 'rules.json')
rules = json.load(open(rules_f)) if os.path.exists(rules_f) else {}
sys.path.insert(0, here)
props = []
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith('props_') and f.endswith('.py')):
    props += __import__(m).P
props.sort(key=lambda p: p['id'])
for p in props:
    f = os.path.join(root, 'evidence', p['id'] + '.json')
    if os.path.exists(f):
        e = json.load(open(f))
        if e.get('tier') == 'quick':
            c = e['coverage']
            rules[p['id']] = dict(rule=c['rule'], states=c['states'], transitions=c['transitions'], wall=round(e['wall_s']), assumptions=e.get('assumptions'))
json.dump(rules, open(rules_f, 'w'), indent=1, sort_keys=True)
out = [open(os.path.join(d, 'head.md')).read()]
for p in props:
    r = rules.get(p['id'], {})
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Technique*: %s.\n' % p['technique'])
    if r:
        out.append('*Enumerated and compared*: %s.\n' % r['rule'])
    out.append('*Bounds*: %s.\n' % p['note'])
    out.append('*Why tests cannot settle it*: %s.\n' % p['why'])
    if r:
        out.append('*Cost (quick)*: %d states, %d steps, about %d s plus the build.\n' % (r['states'], r['transitions'], max(1, r['wall'])))
na = json.load(open(os.path.join(here, 'not_applicable.json')))
if na:
    out.append('### Not applicable\n')
    for p in na:
        out.append('- %s: %s\n' % (p['property'], p['reason']))
out.append('## 3. Planted bugs and the checks that catch them\n')
out.append(open(os.path.join(d, 'seeds.md')).read() if os.path.exists(os.path.join(d, 'seeds.md')) else '')
out.append('| planted bug | property | needs | caught by |\n|---|---|---|---|')
sd = os.path.join(root, 'seeded')
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    out.append('| `%s` | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
out.append('')
out.append(open(os.path.join(d, 'tail.md')).read())
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
