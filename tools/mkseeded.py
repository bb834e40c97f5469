#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
notes = json.load(open(root + '/tools/seeded-notes.json'))
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {notes.get(i, 'caught')} |")
p = root + '/DESIGN.md'
d = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
d = d[:d.index(a) + len(a)] + '| id | property (its check catches it) | needs | at first |\n|----|----|----|----|\n' + '\n'.join(rows) + '\n' + d[d.index(b):]
open(p, 'w').write(d)
