#!/usr/bin/env python3
"""seed.py FILE...: author planted bugs. Each FILE is python defining ID, PROP, NEEDS, BREAKS,
EDITS=[(file, old, new)...], DEMO (text of a Go test, package zzdemo); writes /verif/seeded/ID
after confirming that the patched tree builds, passes the stable tests, and that the demo
tells the two trees apart; then runs the check of PROP against the patch.
seed.py -r ID...: only run the check of the planted bug(s)."""
import subprocess, sys, os, json, time
R='/repo'; S='/verif/seeded'
DEMO_SH='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=%s
echo "{\\"Replace\\":{\\"$PWD/zzdemo/demo_test.go\\":\\"$D/demo_test.go\\"}}" >"$T/o.json"
go test -c -overlay "$T/o.json" -vet=off -o "$T/demo" ./zzdemo || exit 3
cd "$T" && ./demo -test.timeout 200s
'''
def sh(c,t=900):
    try: p=subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
def clean():
    assert sh(f'git -C {R} status --porcelain')[1]=='', 'repo not clean'
def undo(): sh(f'git -C {R} checkout -- .')
def check(prop):
    t=time.time(); rc,o=sh(f'bash /verif/check.sh {prop} quick'); 
    l=[x for x in o.split('\n') if 'VIOLATION' in x or 'violation' in x]
    return rc,(l or o.strip().split('\n')[-1:])[0],time.time()-t
def run(id):
    d=f'{S}/{id}'; m=json.load(open(d+'/meta.json')); clean()
    rc,o=sh(f'git -C {R} apply {d}/patch.diff')
    if rc: print(id,'PATCH DOES NOT APPLY',o); return
    try: rc,l,t=check(m['property'])
    finally: undo()
    print(id,m['property'],'CAUGHT' if rc==1 else 'MISSED rc=%d'%rc,'%.0fs'%t,l[:200],flush=True)
def make(f):
    g={}; exec(open(f).read(),g); id=g['ID']; clean()
    try:
        for fn,old,new in g['EDITS']:
            p=f'{R}/{fn}'; s=open(p).read(); assert s.count(old)==1,(fn,old,s.count(old)); open(p,'w').write(s.replace(old,new))
        d=f'{S}/{id}'; os.makedirs(d,exist_ok=True)
        diff=sh(f'git -C {R} diff')[1]; open(d+'/patch.diff','w').write(diff)
        open(d+'/demo_test.go','w').write(g['DEMO']); open(d+'/demo.sh','w').write(DEMO_SH%g.get('GOFLAGS','-mod=readonly')); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(d+'/meta.json','w'),indent=1)
        rc,o=sh('bash /verif/tools/stable.sh'); 
        if rc: print(id,'BAD: stable tests',o[-600:]); return
        rc,o=sh(f'cd {R} && bash {d}/demo.sh')
        if rc in (0,3): print(id,'BAD: demo with patch',rc,o[-500:]); return
        why=[x for x in o.split('\n') if 'demo_test' in x or 'panic' in x or 'error' in x][:2]
    finally: undo()
    n=3
    for i in range(n):
        rc,o=sh(f'cd {R} && bash {d}/demo.sh')
        if rc: print(id,'BAD: demo fails clean',o[-800:]); return
    print(id,'confirmed; demo:',why,flush=True)
    run(id)
a=sys.argv[1:]
if a[:1]==['-r']:
    ids=a[1:] or sorted(os.listdir(S))
    for i in ids: run(i)
else:
    for f in a: make(f)
