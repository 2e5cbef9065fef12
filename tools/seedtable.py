#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (between the markers)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{s}/meta.json'))
    rows.append((m['property'], s, m['needs'], m['what_it_breaks']))
rows.sort()
t = '| check | planted change | needs | breaks |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % tuple(x.replace('|', '/') for x in r) for r in rows)
p = root + '/DESIGN.md'
d = open(p).read()
if 'SEEDTABLE' in d:
    d = d.replace('SEEDTABLE', '<!-- seeds -->\n<!-- /seeds -->')
d = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + t + '<!-- /seeds -->', d, flags=re.S)
open(p, 'w').write(d)
