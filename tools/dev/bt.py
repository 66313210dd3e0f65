import subprocess,sys,os,shutil
# usage: bt.py bugs.py [filter]   B=[(name,"C06 C18",[(file,old,new)])]
ns={}
exec(open(sys.argv[1]).read(),ns)
RT=os.environ.get('RTDIR','/tmp/bt')
flt=sys.argv[2] if len(sys.argv)>2 else ''
env=dict(os.environ,CGO_ENABLED='0',GOFLAGS='',GOROOT='/opt/veriftools/go1.27.3',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
from concurrent.futures import ThreadPoolExecutor
HV=os.environ.get('HVBIN','/tmp/hvx')
def run(i):
    name,checks,edits=ns['B'][i]
    if flt and flt not in name: return None
    d=RT+'/%d'%i
    subprocess.run(['rm','-rf',d]); os.makedirs(RT,exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    for f,o,n in edits:
        p=os.path.join(d,f)
        if o is None: open(p,'a').write(n); continue
        s=open(p).read()
        if s.count(o)<1: return (name,'EDIT FAILS '+f+': '+o[:60],'')
        open(p,'w').write(s.replace(o,n,1))
    b=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True,text=True,errors='replace')
    if b.returncode: return (name,'NO BUILD',b.stderr)
    if any('wasm' in f for f,_,_ in edits):
        b=subprocess.run(['go','build','./cmd/...'],cwd=d,env=dict(env,GOOS='js',GOARCH='wasm'),capture_output=True,text=True,errors='replace')
        if b.returncode: return (name,'NO BUILD',b.stderr)
    b=subprocess.run(['go','test','-timeout','60s','./...'],cwd=d,env=env,capture_output=True,text=True,errors='replace')
    tests='tests ok' if b.returncode==0 else 'TESTS FAIL'
    v=RT+'/v%d'%i; os.makedirs(v,exist_ok=True)
    shutil.copy('/verif/known-findings.txt',v)
    st=[];out=''
    for c in checks.split():
        q=subprocess.run([HV,c],cwd='/verif/hv',env=dict(env,HV_REPO=d,HV_VERIF=v,HV_STRICT=''),capture_output=True,text=True,errors='replace')
        st.append(c+(' CAUGHT' if q.returncode==1 else ' missed' if q.returncode==0 else ' RC%d'%q.returncode))
        out+='\n'.join('    '+l[:260] for l in (q.stdout+q.stderr).split('\n')[:4])+'\n'
    subprocess.run(['rm','-rf',d])
    return (name,tests+' | '+', '.join(st),out)
with ThreadPoolExecutor(int(os.environ.get('PAR','6'))) as ex:
    for r in ex.map(run,range(len(ns['B']))):
        if r:
            print('==',r[0],'|',r[1]); print(r[2]); sys.stdout.flush()
