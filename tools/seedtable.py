#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md, from seeded/*/meta.json (missed ones: 'missed' in tools/missed.txt)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(H + '/tools/missed.txt').read().split()) if os.path.exists(H + '/tools/missed.txt') else set()
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'], 'nothing' if n in missed else m['property']))
p = H + '/DESIGN.md'
s = open(p).read()
new = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDED_TABLE', new) if 'SEEDED_TABLE' in s else re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: new, s, flags=re.S)
open(p, 'w').write(s)
