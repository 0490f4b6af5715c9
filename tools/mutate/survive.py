import json,subprocess,os,sys,random,threading,queue,time
src=sys.argv[1]; out=sys.argv[2]; par=int(sys.argv[3])
R='/tmp/mutbase'
muts=[json.loads(l) for l in open(src)]
done=set()
if os.path.exists(out):
    for l in open(out):
        done.add(json.loads(l)['id'])
env=dict(os.environ); 
e=subprocess.run(['bash','-c','. /opt/vp/env.sh; env -0'],capture_output=True).stdout.decode()
for kv in e.split('\0'):
    if '=' in kv:
        k,v=kv.split('=',1); env[k]=v
env['GOCACHE']='/tmp/mutcache'; env['GOMAXPROCS']='2'; env['GOFLAGS']=env.get('GOFLAGS','')
base='/tmp/mutrepo'
subprocess.run('rm -rf /tmp/mutrepo; mkdir -p /tmp/mutrepo; git -C /repo archive 339d9706c21a88a374dde3668b523afe41c378b0 | tar -x -C /tmp/mutrepo',shell=True,check=True)
subprocess.run(['go','test','-vet=off','-count=1','./...'],cwd=base,env=env,stdout=subprocess.DEVNULL)
open('/tmp/mutcache.marker','w').close(); time.sleep(1.1)
q=queue.Queue()
random.Random(1).shuffle(muts)
for m in muts:
    if m['id'] not in done: q.put(m)
lock=threading.Lock(); f=open(out,'a'); cnt=[0]
def work(k):
    d=f'/tmp/mutw{k}'; os.makedirs(d,exist_ok=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        s=open(os.path.join(R,m['file']),'rb').read()
        s=s[:m['start']]+m['repl'].encode()+s[m['end']:]
        open(d+'/f.go','wb').write(s)
        json.dump({'Replace':{os.path.join(base,m['file']):d+'/f.go'}},open(d+'/o.json','w'))
        try:
            p=subprocess.run(['go','test','-vet=off','-count=1','-failfast','-timeout','40s','-overlay',d+'/o.json','./...'],cwd=base,env=env,capture_output=True,timeout=150)
            o=p.stdout.decode('utf8','replace')+p.stderr.decode('utf8','replace')
            res='pass' if p.returncode==0 else ('build' if 'build failed' in o else 'fail')
        except subprocess.TimeoutExpired: res='timeout'
        m['res']=res
        with lock:
            f.write(json.dumps(m)+'\n'); f.flush(); cnt[0]+=1
            if cnt[0]%150==0:
                subprocess.run('find /tmp/mutcache -type f -newer /tmp/mutcache.marker -delete 2>/dev/null',shell=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(par)]
[t.start() for t in ts];[t.join() for t in ts]
print('done',cnt)
