#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for b in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % b))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
p = HERE + '/DESIGN.md'
s = open(p).read()
mark = '<!-- planted bugs -->\n'
s = s[:s.index(mark)] + mark + '| change | property (its check catches it) | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
print(len(rows))
