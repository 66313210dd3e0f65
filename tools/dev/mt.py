import subprocess,sys,os,shutil,json
# usage: mt.py muts.py [filter]; muts.py defines M=[(name,check,[(file,old,new),...],expect)]
ns={}
exec(open(sys.argv[1]).read(),ns)
flt=next((x for x in sys.argv[2:] if x!='-q'),'')
env=dict(os.environ,CGO_ENABLED='0',GOFLAGS='',GOROOT='/opt/veriftools/go1.27.3',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
from concurrent.futures import ThreadPoolExecutor
def run(i):
    name,check,edits,expect=ns['M'][i]
    if flt and flt not in name: return None
    d='/tmp/mt/%d'%i
    subprocess.run(['rm','-rf',d]); os.makedirs('/tmp/mt',exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    for f,o,n in edits:
        p=os.path.join(d,f); s=open(p).read()
        if o not in s: return (name,'EDIT FAILS '+f,'')
        open(p,'w').write(s.replace(o,n,1))
    b=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True,text=True,errors='replace')
    if b.returncode: return (name,'NO BUILD',b.stderr)
    if any('wasm' in f for f,_,_ in edits):
        b=subprocess.run(['go','build','./cmd/...'],cwd=d,env=dict(env,GOOS='js',GOARCH='wasm'),capture_output=True,text=True,errors='replace')
        if b.returncode: return (name,'NO BUILD',b.stderr)
    out=''
    res=[]
    for c in check.split():
        v='/tmp/mt/v%d'%i; os.makedirs(v,exist_ok=True)
        if os.path.exists('/verif/known-findings.txt'): shutil.copy('/verif/known-findings.txt',v)
        q=subprocess.run([os.environ.get('HVBIN','/tmp/hvx'),c],cwd='/verif/hv',env=dict(env,HV_REPO=d,HV_VERIF=v,HV_STRICT='' if expect else '1'),capture_output=True,text=True,errors='replace')
        res.append(q.returncode); out+=q.stdout+q.stderr
    subprocess.run(['rm','-rf',d])
    rc=max(res)
    st='ok' if rc==expect else 'WRONG(rc=%d)'%rc
    return (name,st,out)
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(run,range(len(ns['M']))):
        if r:
            print('==',r[0],r[1]); 
            if '-q' not in sys.argv: print('\n'.join(l[:400] for l in r[2].split('\n')[:8]))
