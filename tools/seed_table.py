#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md (between the SEEDS markers)"""
import json,glob,os,re
b=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for m in glob.glob(b+'/seeded/*/meta.json'):
    j=json.load(open(m)); rows.append((j['property'],os.path.basename(os.path.dirname(m)),j['needs'],j['what_it_breaks']))
t='| caught by | bug | needs | breaks |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%r for r in sorted(rows))
p=b+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- SEEDS -->.*?<!-- /SEEDS -->|@@SEEDS@@',lambda _:'<!-- SEEDS -->\n'+t+'<!-- /SEEDS -->',s,flags=re.S)
open(p,'w').write(s)
