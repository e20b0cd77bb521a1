#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['<!-- seeds -->', '| planted bug | caught by | manifests with | effect |', '|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
rows.append('<!-- /seeds -->')
p = root + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
