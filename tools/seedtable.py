#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json and seeded/results.json (written by tools/seed.py hunt)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(ROOT, 'tools', 'hunt.json')
if os.path.exists(p):
    res = json.load(open(p))
rows = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, '?')))
d = os.path.join(ROOT, 'DESIGN.md')
s = open(d).read()
head = s[:s.index('## 6. Planted bugs')]
open(d, 'w').write(head + '## 6. Planted bugs and what catches them\n\n' + '\n'.join(rows) + '\n')
