#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, ' '.join(m['needs'].split())))
rows.sort()
t = '<!-- table -->\n| property and check | planted bug | needs |\n|---|---|---|\n'
t += ''.join(f'| {p} | {d} | {n} |\n' for p, d, n in rows) + '<!-- end -->'
p = f'{root}/DESIGN.md'
s = open(p).read()
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- table -->.*<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
