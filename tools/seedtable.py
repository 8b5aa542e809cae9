#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand after adding one)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    caught = m.get('caught_by') or m['property']
    rows.append((m['property'], d, m['needs'], caught))
rows.sort()
t = ''.join(f'| {d} | {p} | {n} | {c} |\n' for p, d, n, c in rows)
s = open(here + '/DESIGN.md').read()
head = '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
a = s.index(head) + len(head)
b = re.compile(r'^(?!\|)', re.M).search(s, a).start() if not s[a:].startswith('SEEDTABLE') else a + len('SEEDTABLE\n')
open(here + '/DESIGN.md', 'w').write(s[:a] + t + s[b:])
