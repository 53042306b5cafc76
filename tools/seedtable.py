#!/usr/bin/env python3
"""Append the table of planted bugs to DESIGN.md (after the marker). Run by hand; no check uses it."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(H + '/tools/missed_first.json'))
rows = []
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {missed.get(i, 'caught')} |")
p = H + '/DESIGN.md'; s = open(p).read().split('<!-- seeds -->')[0]
open(p, 'w').write(s + '<!-- seeds -->\n| planted bug | property | needs | breaks | quick check |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n')
