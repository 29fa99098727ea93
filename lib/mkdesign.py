#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(root + '/DESIGN.md').read()
head = text[:text.index('## Planted bugs')]
rows = []
for name in sorted(os.listdir(root + '/seeded')):
    meta = json.load(open('%s/seeded/%s/meta.json' % (root, name)))
    rows.append('| %s | %s | %s | %s |' % (name, meta['property'], meta['needs'], meta['what_it_breaks']))
rows.sort(key=lambda r: r.split('|')[2])
tail = open(root + '/lib/planted.md').read()
open(root + '/DESIGN.md', 'w').write(head + tail + '\n| id | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
