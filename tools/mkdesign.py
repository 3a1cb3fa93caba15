#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | what it breaks | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|')))
f = os.path.join(ROOT, 'DESIGN.md')
s = open(f).read()
s = re.sub(r'@@SEEDED@@|\| planted bug \|.*?(?=\n\n)', lambda _: '\n'.join(rows), s, flags=re.S)
open(f, 'w').write(s)
