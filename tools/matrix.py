#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(B + '/seeded')):
    m = json.load(open(f'{B}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
f = B + '/DESIGN.md'
s = open(f).read()
k = s.index('| bug | caught by |')
open(f, 'w').write(s[:k] + '\n'.join(rows) + '\n')
