#!/usr/bin/env python3
# run.py OUT WORKERS FILE:PROP,PROP... : executes the contracts (no proof) on every mutant of the file; development only.
import sys,json,subprocess,os,shutil,tempfile,threading,queue
out,workers=sys.argv[1],int(sys.argv[2])
tmp=tempfile.mkdtemp(prefix='mut')
env=dict(os.environ,GOVC_CONCRETE_ONLY='700',VERIF_SEED='1')
subprocess.check_call(['go','build','-o',tmp+'/mutate','.'],cwd='/verif/tools/mutate')
shutil.copy('/tmp/govc',tmp+'/govc'); shutil.copytree('/verif/spec',tmp+'/spec')
q=queue.Queue()
for a in sys.argv[3:]:
    f,ps=a.split(':')
    for l in subprocess.check_output([tmp+'/mutate','/repo/'+f],text=True).splitlines():
        m=json.loads(l); q.put((f,ps.split(','),m))
print(q.qsize(),'mutants',flush=True)
lock=threading.Lock(); log=open(out,'w')
def work(i):
    d=f'{tmp}/r{i}'
    shutil.copytree('/repo',d,symlinks=True)
    while True:
        try: f,ps,m=q.get_nowait()
        except queue.Empty: return
        orig=open(f'{d}/{f}').read()
        open(f'{d}/{f}','w').write(m['text'])
        st='SURVIVED'
        try:
            r=subprocess.run(['go','vet','-vettool=/bin/true','.'],capture_output=True) if False else None
            for p in ps:
                ev=f'{tmp}/ev{i}'; os.makedirs(ev,exist_ok=True)
                try: r=subprocess.run([tmp+'/govc','-repo',d,'-spec',tmp+'/spec','-evidence',ev,'-known','/verif/known-findings.json','-prop',p],capture_output=True,text=True,env=env,timeout=240)
                except subprocess.TimeoutExpired: st='TIMEOUT '+p; break
                if r.returncode==1: st='killed '+p; break
                if r.returncode==2: st='nobuild'; break
        finally: open(f'{d}/{f}','w').write(orig)
        with lock:
            log.write(f"{st}\t{f}:{m['line']}\t{m['what'][:160]}\n"); log.flush()
ts=[threading.Thread(target=work,args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(tmp)
