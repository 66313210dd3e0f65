#!/usr/bin/env python3
import sys,os,json,subprocess,shutil,tempfile,runpy
from concurrent.futures import ThreadPoolExecutor
SEEDS=runpy.run_path(sys.argv[1])['S']
flt=sys.argv[2] if len(sys.argv)>2 else ''
ENV=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOROOT='/opt/veriftools/go1.27.3',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
BASE=json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd,cwd,env=ENV,t=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return p.returncode,p.stdout
DEMO='''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if it is broken. Run with cwd at the repository.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOROOT=/opt/veriftools/go1.27.3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$t/overlay.json"
%(env)stimeout 240 go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s %(exec)s -run '^TestDemo' ./%(pkg)s
'''
def one(s):
    id=s['id']; out=[]
    d='/tmp/sd/'+id
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,symlinks=True)
    for f,old,new in s['edits']:
        p=d+'/'+f; t=open(p).read()
        if t.count(old)!=1: return id,'EDIT %d %s'%(t.count(old),f)
        open(p,'w').write(t.replace(old,new))
    rc,o=sh('gofmt -l $(git diff --name-only | grep go$)',d)
    if o.strip(): sh('gofmt -w '+o.replace('\n',' '),d)
    _,patch=sh('git diff',d)
    rc,o=sh('go build ./... && GOOS=js GOARCH=wasm go build ./cmd/...',d)
    if rc: return id,'BUILD '+o[-600:]
    sd='/tmp/sd/out/'+id
    shutil.rmtree(sd,ignore_errors=True); os.makedirs(sd)
    open(sd+'/patch.diff','w').write(patch)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(sd+'/meta.json','w'),indent=1,ensure_ascii=False)
    wasm=s.get('wasm')
    if 'demo_sh' in s:
        open(sd+'/demo.sh','w').write(s['demo_sh'])
    else:
        open(sd+'/demo.sh','w').write(DEMO%dict(pkg=s.get('pkg','.'),env='GOOS=js GOARCH=wasm ' if wasm else '',exec='-exec "env -i HOME=/root PATH=$PATH bash $GOROOT/lib/wasm/go_js_wasm_exec"' if wasm else ''))
    os.chmod(sd+'/demo.sh',0o755)
    for n,t in s.get('files',{}).items(): open(sd+'/'+n,'w').write(t)
    # tests
    env2=dict(ENV)
    rc,o=sh(r'''L=$(mktemp -d); go test -json -vet=off -count=1 ./... > $L/native.json
GOOS=js GOARCH=wasm go test -json -vet=off -count=1 -exec "env -i HOME=/root PATH=$PATH bash $GOROOT/lib/wasm/go_js_wasm_exec" ./cmd/... > $L/wasm.json
python3 /opt/vp/results.py /tmp/sd/%s.json "gojson:$L/*.json"; rm -rf $L'''%id,d)
    r=json.load(open('/tmp/sd/%s.json'%id))
    def passed(x):
        return set(x.get('passed') or [])
    lost=[t for t in stable if t not in passed(r)]
    if lost: out.append('TESTS LOST %d %s'%(len(lost),lost[:3]))
    rc,o=sh('bash %s/demo.sh'%sd,'/repo')
    if rc: out.append('DEMO fails on clean: '+o[-800:])
    rc,o=sh('bash %s/demo.sh'%sd,d)
    if rc==0: out.append('DEMO passes on patched: '+o[-300:])
    else: out.append('demo ok: '+' / '.join(l for l in o.splitlines() if l.strip())[:230])
    e3=dict(ENV,HV_REPO=d,HV_VERIF='/tmp/sd/v/'+id,CGO_ENABLED='0',GOFLAGS='')
    os.makedirs('/tmp/sd/v/'+id,exist_ok=True)
    rc,o=sh('/tmp/hvx '+s['prop'],d,e3,900)
    out.append('CHECK rc=%d %s'%(rc,o.strip()[:500]))
    shutil.rmtree(d)
    os.remove('/tmp/sd/%s.json'%id)
    good=not any(x.startswith(('TESTS','DEMO')) for x in out)
    if good:
        dst='/verif/seeded/'+id
        shutil.rmtree(dst,ignore_errors=True); shutil.copytree(sd,dst)
    return id,('GOOD ' if good else 'BAD ')+('CAUGHT ' if rc==1 else 'MISSED ')+'\n   '.join(out)
b=BASE
stable=b.get('stable') or b.get('passed') or b.get('tests')
if isinstance(stable,dict): stable=list(stable)
with ThreadPoolExecutor(4) as ex:
    for id,r in ex.map(one,[s for s in SEEDS if flt in s['id']]): print('==',id,r,flush=True)
