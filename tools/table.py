#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
t = open(p).read()
mark = '<!-- seeded -->'
if mark not in t:
    t = t.replace('SEEDED_TABLE', mark)
head = t[:t.index(mark) + len(mark)]
rows = {}
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.setdefault(m['property'], []).append((d, m['what_it_breaks'], m.get('caught', True)))
out = '\n\n| caught by | change | breaks |\n|---|---|---|\n'
for k in sorted(rows):
    for d, b, c in rows[k]:
        out += f"| {k if c else '(missed by ' + k + ')'} | {d} | {b.replace('|', chr(92) + '|').replace(chr(10), ' ')} |\n"
open(p, 'w').write(head + out)
