#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (from seeded/*/meta.json and the lines
that runseeds.sh wrote, given as arguments)."""
import json,glob,sys,re,os
V=os.path.abspath(os.path.dirname(__file__)+'/../..')
res={}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'(\S+) (C\d\d) rc=(\d+)',l)
        if m: res[m[1]]=m[3]=='1'
rows=['| bug | property | needs | caught by its quick check |','|---|---|---|---|']
old=dict(re.findall(r'^\| (\S+) \|.*\| (\S+) \|$',open(V+'/DESIGN.md').read(),re.M))
for d in sorted(glob.glob(V+'/seeded/*/')):
    i=d.split('/')[-2]; m=json.load(open(d+'meta.json'))
    r={True:'yes',False:'**no**'}.get(res.get(i)) or old.get(i,'?')
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {r} |")
s=open(V+'/DESIGN.md').read()
a,b=s.index('<!-- caught -->'),s.index('<!-- /caught -->')
open(V+'/DESIGN.md','w').write(s[:a]+'<!-- caught -->\n'+'\n'.join(rows)+'\n'+s[b:])
