#!/usr/bin/env python3
# Fills the tables of DESIGN.md from evidence/, known-findings.json and seeded/.
import json,glob,re,os
p='/verif/DESIGN.md'; s=open(p).read()
def put(tag,text):
    global s
    a='<!-- %s -->'%tag; b='<!-- /%s -->'%tag
    i=s.index(a)+len(a); j=s.index(b)
    s=s[:i]+'\n'+text+s[j:]
rows=['| Contract | On | Status | Obligations |','|---|---|---|---|']
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    for c in json.load(open(f))['coverage']['contracts']:
        st='P' if c['status']=='proved' else 'B: '+c.get('bounded_because','')
        on=', '.join('`%s`'%x for x in (c.get('on') or [])[:4])
        rows.append('| %s | %s | %s | %s |'%(c['contract'][7:],on,st,c.get('obligations','')))
put('contracts','\n'.join(rows)+'\n')
rows=[]
for f in json.load(open('/verif/known-findings.json')):
    rows.append('* '+f['what'])
put('findings','\n'.join(rows)+'\n')
rows=['| Planted bug | Property | What it breaks | Needs | Caught by |','|---|---|---|---|---|']
res={}
r='/verif/tools/seed-results.json'
if os.path.exists(r): res=json.load(open(r))
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'],m['needs'],res.get(i,'?')))
put('seeds','\n'.join(rows)+'\n')
open(p,'w').write(s)
