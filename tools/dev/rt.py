import subprocess,sys,os,shutil
# usage: rt.py refs.py [filter] [checks...]
ns={}
exec(open(sys.argv[1]).read(),ns)
RT=os.environ.get('RTDIR','/tmp/rt')
flt=sys.argv[2] if len(sys.argv)>2 else ''
checks=sys.argv[3:] or ['C%02d'%i for i in range(1,22)]
env=dict(os.environ,CGO_ENABLED='0',GOFLAGS='',GOROOT='/opt/veriftools/go1.27.3',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
from concurrent.futures import ThreadPoolExecutor
HV=os.environ.get('HVBIN','/tmp/hvx')
def run(i):
    name,edits=ns['R'][i]
    if flt and flt not in name: return None
    d=RT+'/%d'%i
    subprocess.run(['rm','-rf',d]); os.makedirs(RT,exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    for f,o,n in edits:
        p=os.path.join(d,f)
        if o is None:
            open(p,'a').write(n); continue
        s=open(p).read()
        if s.count(o)<1: return (name,['EDIT FAILS '+f+': '+o[:60]])
        open(p,'w').write(s.replace(o,n,1))
    b=subprocess.run(['go','vet','./...'],cwd=d,env=env,capture_output=True,text=True,errors='replace')
    b=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True,text=True,errors='replace')
    if b.returncode: return (name,['NO BUILD',b.stderr])
    b=subprocess.run(['go','test','-timeout','60s','./...'],cwd=d,env=env,capture_output=True,text=True,errors='replace')
    out=[]
    if b.returncode: out.append('TESTS FAIL '+b.stdout[-600:])
    if any('wasm' in f for f,_,_ in edits):
        b=subprocess.run(['go','build','./cmd/...'],cwd=d,env=dict(env,GOOS='js',GOARCH='wasm'),capture_output=True,text=True,errors='replace')
        if b.returncode: return (name,['NO BUILD',b.stderr])
    v=RT+'/v%d'%i; os.makedirs(v,exist_ok=True)
    shutil.copy('/verif/known-findings.txt',v)
    import time
    for c in checks:
        t=time.time()
        try:
            q=subprocess.run([HV,c],cwd='/verif/hv',env=dict(env,HV_REPO=d,HV_VERIF=v,HV_STRICT=''),capture_output=True,text=True,timeout=900)
        except subprocess.TimeoutExpired:
            out.append(c+' TIMEOUT'); continue
        dt=time.time()-t
        o=q.stdout+q.stderr
        if q.returncode: out.append('%s ALARM rc=%d'%(c,q.returncode)+'\n'+'\n'.join(l[:300] for l in o.split('\n')[:8]))
        else:
            nd=[l[:260] for l in o.split('\n') if 'NOT-DECIDED' in l]
            if nd: out.append('%s nd=%d %s'%(c,len(nd),nd[0]))
        if dt>200: out.append('%s SLOW %d'%(c,dt))
    subprocess.run(['rm','-rf',d])
    return (name,out)
with ThreadPoolExecutor(int(os.environ.get('PAR','6'))) as ex:
    for r in ex.map(run,range(len(ns['R']))):
        if r:
            print('==',r[0],'' if r[1] else 'quiet')
            for l in r[1]: print('   ',l)
            sys.stdout.flush()
