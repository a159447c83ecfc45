#!/usr/bin/env python3
"""Writes the table of planted bugs of DESIGN.md (between the two markers) from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m['property']} quick |")
p = here + '/DESIGN.md'; s = open(p).read()
A, B = '<!-- seeds -->', '<!-- /seeds -->'
if '@@TABLE@@' in s: s = s.replace('@@TABLE@@', A + '\n' + B)
i, j = s.index(A), s.index(B)
s = s[:i + len(A)] + '\n' + '\n'.join(rows) + '\n' + s[j:]
open(p, 'w').write(s)
