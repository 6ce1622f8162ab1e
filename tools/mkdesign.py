#!/usr/bin/env python3
# DESIGN.md = design/head.md + per-property rules from the harness + planted bugs + design/tail.md
import re,glob,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d={}
for f in sorted(glob.glob(V+'/harness/p_*.go')):
    s=open(f).read()
    for m in re.finditer(r'register\(&Prop\{\s*ID:\s*"(C\d+)",(.*?)(?=register\(&Prop|\Z)',s,re.S):
        b=m.group(2)
        r=re.search(r'Rule:\s*"(.*?)",\n',b)
        sc=re.findall(r'Name: "([a-z-]+)", Mode: (\w+)(.*?)Quick: (\d+), Thorough: (\d+)',b)
        d[m.group(1)]=(r.group(1) if r else '',sc,os.path.basename(f))
o=open(V+'/tools/design/head.md').read().rstrip()+'\n\n'
for i in sorted(d):
    r,sc,f=d[i]
    o+=f"**{i}** (`{f}`). {r} Scenarios (quick/thorough cases): "+', '.join(f"{n} {q}/{t}"+(', wall time' if m=='Real' else '') for n,m,_,q,t in sc)+'.\n\n'
o+='''## 3. Planted bugs and which checks catch them

`tools/seeds/defs*.py` define them, `tools/seeds/gen.py` makes `seeded/<id>/`, confirms each (the
demonstration passes three times on the unchanged tree and fails three times with the patch, the
stable tests pass, original lines are changed) and runs the property's check against it.
"(after)" marks those which the check missed at first and which made it stronger.

| planted | property | what it needs | caught by |
|---|---|---|---|
'''
res=json.load(open(V+'/tools/seeds/results.json')) if os.path.exists(V+'/tools/seeds/results.json') else {}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=m.split('/')[-2]; j=json.load(open(m)); r=res.get(i,{})
    o+=f"| {i} | {j['property']} | {j['needs']} | {r.get('by','?')}{' (after)' if r.get('missed') and r.get('by','').startswith('C') else ''} |\n"
o+=open(V+'/tools/design/tail.md').read()
open(V+'/DESIGN.md','w').write(o)
