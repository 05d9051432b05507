#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, glob, os
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(v + '/DESIGN.md').read()
i = d.index('| id | property | needs |')
rows = ['| id | property | needs |', '|----|----------|-------|']
for m in sorted(glob.glob(v + '/seeded/*/meta.json')):
    x = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), x['property'], x['needs']))
open(v + '/DESIGN.md', 'w').write(d[:i] + '\n'.join(rows) + '\n')
