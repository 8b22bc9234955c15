"""Writes DESIGN.md from design_head.md, the properties, design_props.md
(one paragraph per property), design_tail.md and the seeded bugs."""
import json
import os
import re
import sys

H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import properties as Q  # noqa: E402

paras = {}
cur = None
for line in open(os.path.join(H, 'design_props.md')):
    m = re.match(r'\[(\w\d\d)\] ', line)
    if m:
        cur = m.group(1)
        paras[cur] = line[len(m.group(0)):]
    elif cur:
        paras[cur] += line
out = open(os.path.join(H, 'design_head.md')).read()
for p in Q.P:
    out += '\n### %s %s\n\n*Method*: %s. *Bounds*: %s.\n%s\n' % (
        p['id'], p['title'], p['_tech'],
        p['_note'] or p['quantifier']['text'],
        paras[p['id']].strip())
out += '\n' + open(os.path.join(H, 'design_tail.md')).read()
out += '\n## Seeded bugs\n\nEvery one is caught by the quick check of its ' \
    'property.\n\n| id | property | needs | breaks |\n|---|---|---|---|\n'
S = os.path.join(Q.VERIF, 'seeded')
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    out += '| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'],
                                       m['what_it_breaks'])
open(os.path.join(Q.VERIF, 'DESIGN.md'), 'w').write(out)
