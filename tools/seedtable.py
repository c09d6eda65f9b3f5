#!/usr/bin/env python3
# seedtable.py LOG...: writes section 5 of DESIGN.md (the table of planted bugs) from seedrun logs.
import json,os,re,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got={}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'(\S+) (C\d\d) rc=(\d) (\d+)s: (.*)',l)
        if m:
            c=re.search(r'replays/C\d\d-([a-z-]+)-(?:\w+)\.plan',m.group(5))
            got[m.group(1)]=(m.group(3),c.group(1) if c else '')
out=[]
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    rc,c=got.get(i,('?',''))
    out.append(f"| {i} | {m['property']} | {'`'+c+'`' if rc=='1' else ('missed' if rc=='0' else 'not run')} | {m['needs']} |")
d=open(V+'/DESIGN.md').read()
a='<!-- planted bugs -->'
if a not in d: d+='\n'+a+'\n'
d=d[:d.index(a)]+a+'\n| planted bug | property | found as | needs |\n|---|---|---|---|\n'+'\n'.join(out)+'\n'
open(V+'/DESIGN.md','w').write(d)
