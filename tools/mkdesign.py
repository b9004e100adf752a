#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,re
p='/verif/DESIGN.md'; s=open(p).read()
rows=['| change | check | what it breaks |','|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append('| %s | %s | %s |'%(f.split('/')[-2],d['property'],d['what_it_breaks'].replace('|','/')))
t='<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
if '@SEEDS@' in s: s=s.replace('@SEEDS@',t)
else: s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
