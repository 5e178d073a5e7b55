#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md."""
import glob, json, re
rows = ['| change | property | needs |', '|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs']))
p = '/verif/DESIGN.md'
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
if '@@SEEDED@@' in s:
    s = s.replace('@@SEEDED@@', t)
else:
    s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
