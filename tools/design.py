#!/usr/bin/env python3
"""Regenerates DESIGN.md (development only, not used by any check)."""
import re,os,glob,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(V+'/tools/DESIGN.in.md').read()
fi=[]
for l in open(V+'/known_findings.txt'):
    l=l.strip()
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fi.append('* fixed, %s (%s): %s'%m.groups())
    m=re.match(r'known: property=(\S+) finding=(\S+) (.*)',l)
    if m: fi.append('* **recorded**, %s `%s`: %s'%m.groups())
se=['| id | property | needs | breaks |','|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); se.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(d)),m['property'],m['needs'],m['what_it_breaks']))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
hs={}
for f in glob.glob(V+'/harness/pkgs/**/*.go',recursive=True):
    s=open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (ZZ(\w\d\d)T?_\w*)\(\)',s):
        hs.setdefault(m.group(3),[]).append((m.group(2),' '.join(x.strip('/ ').strip() for x in m.group(1).strip().split('\n'))))
out=[]
for p in props:
    out.append('**%s** %s'%(p['id'],p['title'])); out.append('')
    for n,c in hs.get(p['id'],[]): out.append('* `%s`: %s'%(n,c))
    out.append('')
t=t.replace('@FINDINGS@','\n'.join(fi)).replace('@SEEDS@','\n'.join(se)).replace('@HARNESSES@','\n'.join(out)).replace('@NMUT@','250')
open(V+'/DESIGN.md','w').write(t)
for p in props:
    if p['id'] not in hs: print('no harness',p['id'])
print(len(t), sum(map(len,hs.values())))
