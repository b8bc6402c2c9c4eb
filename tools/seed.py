#!/usr/bin/env python3
"""Seeded-bug helper (development only, not used by any check).
 seed.py save <sid> <prop> <pkgdir> '<needs>' '<what>'   patch from /tmp/sw working tree, demo from /tmp/demo_test.go
 seed.py verify <sid>...    applies in /tmp/sw, builds, runs stable tests, demo before/after
 seed.py catch <sid>...     runs the property's quick check (/tmp/gosym) against the patched copy
"""
import subprocess,sys,os,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SW=os.environ.get('SW','/tmp/sw')
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',CGO_ENABLED='1')
def sh(c,cwd=SW,**k): return subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def fresh():
    if not os.path.exists(SW): subprocess.run(['cp','-a','/repo',SW],check=True)
    head=sh('git rev-parse HEAD','/repo').stdout.strip()
    sh('git checkout -q -f . ; git clean -fdq; git fetch -q /repo HEAD; git checkout -q -f '+head)
DEMO='''#!/bin/bash
# Runs demo_test.go (beside this file) inside the repository's package; cwd is the repository.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d); trap 'rm -rf "$o"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD%s" "$d" > "$o/overlay.json"
timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "$o/overlay.json" -run '^TestZZDemo$' ./%s
'''
def save(sid,prop,pkg,needs,what):
    d=f'{V}/seeded/{sid}'; os.makedirs(d,exist_ok=True)
    diff=sh('git diff').stdout; assert diff
    open(d+'/patch.diff','w').write(diff)
    shutil.copy('/tmp/demo_test.go',d+'/demo_test.go')
    open(d+'/demo.sh','w').write(DEMO%('' if pkg=='.' else '/'+pkg,'' if pkg=='.' else pkg)); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
def verify(sid):
    d=f'{V}/seeded/{sid}'; fresh()
    a=sh(f'bash {d}/demo.sh')
    r=sh(f'git apply {d}/patch.diff'); assert r.returncode==0,r.stderr
    b=sh('go build ./...')
    t=sh('go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/sw_t.log; python3 /opt/vp/results.py /tmp/sw_o.json gojson:/tmp/sw_t.log')
    base=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got=set(json.load(open('/tmp/sw_o.json'))['passed'])
    c=sh(f'bash {d}/demo.sh'); sh('git checkout -q -f .')
    ok=a.returncode==0 and b.returncode==0 and base<=got and c.returncode!=0
    print(sid,'OK' if ok else 'BAD',a.returncode,b.returncode,sorted(base-got)[:3],c.returncode,flush=True)
    if a.returncode!=0: print(a.stdout[-1500:],a.stderr[-1500:])
    if not ok: print(b.stderr[-500:])
    return ok
def catch(sid,tier='quick'):
    d=f'{V}/seeded/{sid}'; fresh(); p=json.load(open(d+'/meta.json'))['property']
    r=sh(f'git apply {d}/patch.diff'); assert r.returncode==0,r.stderr
    os.makedirs('/tmp/sv',exist_ok=True)
    sh('rm -rf /tmp/sv/harness /tmp/sv/known_findings.txt; cp -r %s/harness %s/known_findings.txt /tmp/sv/; mkdir -p /tmp/sv/evidence'%(V,V))
    r=sh(f'/tmp/gosym -id {p} -tier {tier} -repo {SW} -verif /tmp/sv',cwd='/tmp/sv'); sh('git checkout -q -f .')
    v=[l for l in r.stdout.split('\n') if 'VIOLATION' in l]
    print(sid,p,'CAUGHT' if v and r.returncode==1 else 'MISSED',r.returncode,v[:1],flush=True)
if __name__=='__main__':
    if sys.argv[1]=='fresh': fresh()
    elif sys.argv[1]=='save': save(*sys.argv[2:7]); verify(sys.argv[2]); catch(sys.argv[2])
    else:
        L=sys.argv[2:] or sorted(os.listdir(V+'/seeded'))
        for s in L: globals()[sys.argv[1]](s)
