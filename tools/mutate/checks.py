import json,subprocess,os,sys,threading,time,re
src=sys.argv[1]; out=sys.argv[2]; par=int(sys.argv[3]); N=int(sys.argv[4]); props=sys.argv[5].split(',')
R='/tmp/mutbase'
env=dict(os.environ)
e=subprocess.run(['bash','-c','. /opt/vp/env.sh; env -0'],capture_output=True).stdout.decode()
for kv in e.split('\0'):
    if '=' in kv:
        k,v=kv.split('=',1); env[k]=v
env['GOCACHE']='/tmp/mutcache2'
os.makedirs('/tmp/mc',exist_ok=True)
INSTR='/tmp/mc/instr'
SIM='/tmp/mc/sim'
subprocess.run('/bin/rm -rf /tmp/mc/sim; cp -a /verif/sim /tmp/mc/sim; cd /tmp/mc/sim && go build -o /tmp/mc/instr ./cmd/instr',shell=True,check=True,env=env)
# warm
subprocess.run(['/tmp/mc/instr','/repo','/tmp/mc/o0'],check=True,cwd=SIM,env=env)
subprocess.run(['go','build','-overlay','/tmp/mc/o0/overlay.json','-o','/tmp/mc/w0','./cmd/worker'],check=True,cwd=SIM,env=env)
open('/tmp/mc/marker','w').close(); time.sleep(1.1)
lock=threading.Lock(); done={}
if os.path.exists(out):
    for l in open(out):
        m=json.loads(l); done[m['id']]=m
f=open(out,'a'); claimed=set(done)
cnt=[0]
def take():
    with lock:
        for l in open(src):
            try: m=json.loads(l)
            except Exception: continue
            if m['res']=='pass' and m['id'] not in claimed and 'BUG' not in m['desc'] and not (m['desc'].startswith(('str','add')) and re.search(r'(already|missing|undefined|duplicate|unexpected|wrong|setup|failed|[a-z] [a-z])',m['desc'].split('->')[0])):
                claimed.add(m['id']); return m
    return None
def work(k):
    d=f'/tmp/mc/r{k}'; o=f'/tmp/mc/o{k}'; w=f'/tmp/mc/w{k}'
    subprocess.run(f'/bin/rm -rf {d}; mkdir -p {d}; git -C /repo archive HEAD | tar -x -C {d}',shell=True,check=True)
    mf=d+'.mod'; open(mf,'w').write(open(SIM+'/go.mod').read().replace('=> /repo','=> '+d)); open(d+'.sum','w').write(open(SIM+'/go.sum').read())
    while True:
        m=take()
        if m is None:
            if os.path.exists('/tmp/mc/final'): return
            time.sleep(20); continue
        p=os.path.join(d,m['file']); orig=open(p,'rb').read()
        base=open(os.path.join(R,m['file']),'rb').read()
        mp=f'/tmp/mc/p{k}'; os.makedirs(mp,exist_ok=True)
        open(mp+'/a.go','wb').write(base); open(mp+'/b.go','wb').write(base[:m['start']]+m['repl'].encode()+base[m['end']:])
        df=subprocess.run(['diff','-u',mp+'/a.go',mp+'/b.go'],capture_output=True).stdout
        pr=subprocess.run(['patch','-s','-r','-',p],input=df,capture_output=True)
        if pr.returncode:
            open(p,'wb').write(orig)
            m['hits']={'PATCH':'does not apply'}
            with lock: f.write(json.dumps(m)+'\n'); f.flush()
            continue
        hits={}
        try:
            subprocess.run(f'/bin/rm -rf {o}',shell=True)
            a=subprocess.run(['/tmp/mc/instr',d,o],cwd=SIM,env=env,capture_output=True)
            b=subprocess.run(['go','build','-modfile',mf,'-overlay',o+'/overlay.json','-o',w,'./cmd/worker'],cwd=SIM,env=env,capture_output=True)
            if a.returncode or b.returncode: hits['BUILD']=(a.stderr+b.stderr).decode()[-300:]
            else:
                ps=[]
                for pr in props:
                    if hits: break
                    try:
                        c=subprocess.run([w,'try',pr,'7','0',str(N)],env=env,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,timeout=300)
                        t=c.stdout.decode('utf8','replace')
                        mm=re.search(r'^(\d+ .*\[.*)$',t,re.M)
                        if mm: hits[pr]=mm.group(1)[:250]
                        elif c.returncode: hits[pr]='exit %d'%c.returncode
                    except subprocess.TimeoutExpired: hits[pr]='timeout'
        finally:
            open(p,'wb').write(orig)
        m['hits']=hits
        with lock:
            f.write(json.dumps(m)+'\n'); f.flush(); cnt[0]+=1
            if cnt[0]%60==0: subprocess.run('find /tmp/mutcache2 -type f -newer /tmp/mc/marker -delete 2>/dev/null',shell=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(1,par+1)]
[t.start() for t in ts];[t.join() for t in ts]
print('done')
