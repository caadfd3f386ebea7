#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
rows = ['<!-- matrix -->', '| planted bug | caught by | needs |', '|---|---|---|']
for b in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs']} |")
rows.append('<!-- /matrix -->')
p = '/verif/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('@MATRIX@', t) if '@MATRIX@' in s else re.sub(r'<!-- matrix -->.*<!-- /matrix -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
