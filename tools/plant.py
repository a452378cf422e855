#!/usr/bin/env python3
"""plant.py FILE.py: build /verif/seeded/<id>/ from a description, in a scratch copy.
FILE.py defines BUGS = [dict(id, prop, pkg, edits=[(file, old, new)], demo=GO SOURCE, needs, breaks)].
A bug is kept only if: it builds, the stable tests pass, demo passes without and fails with it."""
import sys, os, subprocess, json, shutil, tempfile
ns={}; exec(open(sys.argv[1]).read(), ns)
only=set(sys.argv[2:])
DEMO='''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$T/o.json"
go test -vet=off -overlay "$T/o.json" -count=1 -run TestDemo ./%(pkg)s
'''
def run(cmd, cwd, t=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,executable='/bin/bash')
    return p.returncode,p.stdout
base=json.load(open('/opt/vp/BASELINE.json'))
for k in ('passed','pass','stable'):
    if k in base: bn=set(base[k])
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    w=tempfile.mkdtemp(prefix='plant'); r=w+'/repo'
    subprocess.check_call(['cp','-a','/repo',r])
    try:
        run('git checkout -q -- . && git clean -fdq',r)
        d='/verif/seeded/'+b['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=b['pkg'])); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go','w').write(b['demo'].lstrip())
        rc,o=run('bash %s/demo.sh'%d,r)
        if rc!=0: print(b['id'],'REJECT demo fails on clean tree\n',o[-3000:]); continue
        bad=False
        for f,old,new in b['edits']:
            s=open(r+'/'+f).read()
            if s.count(old)!=1: print(b['id'],'REJECT edit matches',s.count(old),f,old[:60]); bad=True; break
            open(r+'/'+f,'w').write(s.replace(old,new))
        if bad: continue
        rc,o=run('. /opt/vp/env.sh; gofmt -l $(git diff --name-only); go build ./... && go vet ./%s 2>&1 | tail -3'%b['pkg'],r)
        if rc!=0 or o.strip(): print(b['id'],'build:',rc,o[-2000:])
        if rc!=0: continue
        rc,o=run('git diff',r); open(d+'/patch.diff','w').write(o)
        rc,o=run('bash %s/demo.sh'%d,r)
        if rc==0: print(b['id'],'REJECT demo passes with bug'); shutil.rmtree(d); continue
        fail=[l for l in o.splitlines() if 'demo_test' in l or 'panic' in l][:2]
        # stable tests
        rc,o=run('. /opt/vp/env.sh; go test -json ./... 2>/dev/null',r)
        ok=set()
        for l in o.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'::'+e['Test']); ok.add(e['Package']+'/'+e['Test']); ok.add(e['Package']+' '+e['Test']); ok.add(e['Package']+'.'+e['Test'])
        miss=[x for x in bn if x not in ok]
        if len(miss)==len(bn): print('cannot map test names, sample',list(bn)[:2]); 
        if miss: print(b['id'],'REJECT breaks tests',len(miss),miss[:5]); shutil.rmtree(d); continue
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        print(b['id'],'OK',fail)
    finally:
        shutil.rmtree(w,ignore_errors=True)
