#!/usr/bin/env python3
"""Prints the table of the seeded changes for DESIGN.md (between the SEEDS markers, with -w writes it)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
status = {}
for l in open(os.path.join(V, 'tools', 'seed_status.txt')) if os.path.exists(os.path.join(V, 'tools', 'seed_status.txt')) else []:
    k = l.split(None, 1)
    if len(k) == 2: status[k[0]] = k[1].strip()
rows = ['| change | check | needs | result |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (i, j['property'], j['needs'].replace('|', '/'), status.get(i, 'not run')))
t = '\n'.join(rows)
if '-w' in sys.argv:
    p = os.path.join(V, 'DESIGN.md'); s = open(p).read()
    s = re.sub(r'<!-- SEEDS -->.*<!-- /SEEDS -->', lambda _: '<!-- SEEDS -->\n' + t + '\n<!-- /SEEDS -->', s, flags=re.S)
    open(p, 'w').write(s)
else: print(t)
