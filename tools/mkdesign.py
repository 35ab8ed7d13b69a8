#!/usr/bin/env python3
"""Fills the table of planted changes in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    by.setdefault(m['property'], []).append(f"{i.split('-', 1)[1]} ({m['needs']})")
t = '\n'.join(f"| {p} | {'; '.join(by[p])} |" for p in sorted(by))
s = open(V + '/DESIGN.md').read()
s = s.replace('@TABLE@', '| | |')
s = re.sub(r'(\| property \| planted changes \(all caught\) \|\n\|---\|---\|\n)(\|.*\n)+', lambda m: m.group(1) + t + '\n', s)
open(V + '/DESIGN.md', 'w').write(s)
