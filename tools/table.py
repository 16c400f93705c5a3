#!/usr/bin/env python3
"""regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('| id | property | caught by | needs |')
rows = ['| id | property | caught by | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['property'], d['needs']))
j = s.find('\n\n', i)
s = s[:i] + '\n'.join(rows) + (s[j:] if j >= 0 else '\n')
open(p, 'w').write(s)
