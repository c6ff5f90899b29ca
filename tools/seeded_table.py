#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['needs']))
t = '| property | planted bug | needs |\n|---|---|---|\n'
for p in sorted(rows):
    for i, n in rows[p]:
        t += f'| {p} | {i} | {n} |\n'
D = os.path.join(V, 'DESIGN.md')
s = open(D).read()
B, E = '<!-- seeded -->\n', '<!-- /seeded -->\n'
if '@@TABLE@@\n' in s:
    s = s.replace('@@TABLE@@\n', B + E)
a, b = s.index(B) + len(B), s.index(E)
open(D, 'w').write(s[:a] + t + s[b:])
print(sum(map(len, rows.values())), 'planted bugs')
