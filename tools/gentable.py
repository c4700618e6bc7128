# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the result of tools/catch.sh
# (tools/CATCH: lines "<id> <check> <exit code>")
import json,os,re
v='/verif/'
rows=[]
res={}
p=v+'tools/CATCH'
if os.path.exists(p):
    for l in open(p):
        a=l.split()
        if len(a)==3: res.setdefault(a[0],[]).append((a[1],a[2]))
for d in sorted(os.listdir(v+'seeded')):
    m=json.load(open(v+'seeded/'+d+'/meta.json'))
    c=' '.join(sorted(q for q,x in res.get(d,[]) if x=='1')) or '-'
    rows.append('| %s | %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','\\|'),c))
t=open(v+'DESIGN.md').read()
i=t.index('## Planted bugs')
t=t[:i]+'''## Planted bugs

Each bug in `seeded/` was written from the statement of its property, passes the tests of the repository, and is run against
the quick check of its property with `tools/catch.sh` (results in `tools/CATCH`); other checks were run on some only.

| bug | property | needs | caught by |
|---|---|---|---|
'''+'\n'.join(rows)+'\n'
open(v+'DESIGN.md','w').write(t)
