#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
s = open(V + '/DESIGN.md').read()
a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
open(V + '/DESIGN.md', 'w').write(s[:a] + '<!-- seeded -->\n' + '\n'.join(rows) + '\n' + s[b:])
