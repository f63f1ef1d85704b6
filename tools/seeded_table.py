#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/')))
p = root + '/DESIGN.md'
s = open(p).read()
mark = '| planted | caught by the check of | needs |\n'
head = s.split('@SEEDED@')[0] if '@SEEDED@' in s else s[:s.index(mark)]
open(p, 'w').write(head + mark + '|---|---|---|\n' + '\n'.join(rows) + '\n')
