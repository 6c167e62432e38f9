#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, 'seeded')
rows = []
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, 'meta.json')))
    rows.append((m['property'], b, m['needs'].replace('|', '\\|').replace('\n', ' ')))
rows.sort()
p = os.path.join(root, 'DESIGN.md'); s = open(p).read()
head = '| property | bug | needs |\n|---|---|---|\n'
i = s.find('| bug | property | needs |'); j = s.find(head)
s = s[:max(i, j)] + head + ''.join(f'| {a} | {b} | {c} |\n' for a, b, c in rows)
open(p, 'w').write(s)
print(len(rows), 'bugs', {q: sum(r[0] == q for r in rows) for q in sorted({r[0] for r in rows})})
