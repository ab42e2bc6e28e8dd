#!/usr/bin/env python3
"""drive.py MUTANTS.jsonl RESULTS.jsonl [scale]: runs the monitors against single-point mutants (development aid).
Mutants go in through go build -overlay; /repo is not touched."""
import sys,os,json,subprocess,threading,queue,shutil,tempfile
muts=[json.loads(l) for l in open(sys.argv[1])]; out=sys.argv[2]; scale=sys.argv[3] if len(sys.argv)>3 else '0.1'
done=set()
if os.path.exists(out): done={json.loads(l)['ID'] for l in open(out)}
own={'beatmap/parser.go':'C02 C05 C01 C04 C03','beatmap/beatmap.go':'C06 C02 C05 C10','beatmap/pause.go':'C02','beatmap/stackleniency.go':'C11','beatmap/objects/slider.go':'C09 C10 C02','beatmap/objects/util.go':'C01 C02','beatmap/objects/':'C10 C05 C02 C11','beatmap/timing/':'C06 C09','beatmap/difficulty/difficulty.go':'C12','beatmap/difficulty/mods.go':'C13 C14','beatmap/audio':'C02','files/':'C03','math/curves/multicurve.go':'C08 C07 C28','math/curves':'C28 C08 C07','math/':'C28','performance/osu/skills/speed.go':'C17','performance/osu/skills/aim.go':'C16','performance/osu/skills/flash':'C18','performance/osu/skills/skill.go':'C19 C16 C17 C18','performance/osu/difficulty.go':'C19 C20 C21','performance/osu/pp.go':'C25 C27 C26','performance/osu/preprocessing':'C15'}
ALL=['C%02d'%i for i in range(1,29) if i not in (22,)]+['C22']
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOMODCACHE='/root/go/pkg/mod')
cache='/tmp/mutcache'
lock=threading.Lock(); q=queue.Queue()
for m in muts:
    if m['ID'] not in done: q.put(m)
fo=open(out,'a')
def run(cmd,cwd,cpu,timeout=300):
    p=subprocess.Popen(['taskset','-c',str(cpu)]+cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try: o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); o,_=p.communicate(); return 124,o
def one(m,cpu,d):
    src=open('/repo/'+m['File'],'rb').read(); new=src[:m['Start']]+m['New'].encode()+src[m['End']:]
    open(d+'/f.go','wb').write(new); json.dump({'Replace':{'/repo/'+m['File']:d+'/f.go'}},open(d+'/ov.json','w'))
    rc,o=run(['go','build','-overlay',d+'/ov.json','-o',d+'/vh','.'],HARN,cpu)
    if rc: return 'nobuild',''
    rc,o=run(['go','test','-vet=off','-count=1','-overlay',d+'/ov.json','./...'],'/repo',cpu,120)
    tests='pass' if rc==0 else 'fail'
    if tests=='fail' and not KEEPFAIL: return 'tests',''
    o1=next(v for k,v in sorted(own.items(),key=lambda x:-len(x[0])) if m['File'].startswith(k)).split()
    for c in o1+[c for c in ALL if c not in o1]:
        sc=float(scale) if c in o1 else float(scale)*REST
        if c in o1 or REST:
            rc,o=run([d+'/vh','-prop',c,'-root',d,'-scale',str(sc)],d,cpu,400)
        else: continue
        if rc==1: return 'killed',c
        if rc==124: return 'timeout',c
    return 'SURVIVED',''
REST=float(os.environ.get('REST','0'))
HARN=os.environ.get('HARNESS','/verif/harness')
KEEPFAIL=os.environ.get('KEEPFAIL')
def worker(k):
    d=tempfile.mkdtemp(prefix='mut%d.'%k); os.makedirs(d+'/evidence',exist_ok=True)
    env_k=None
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        try: r,c=one(m,k,d)
        except Exception as e: r,c='error',str(e)
        m.update(result=r,by=c)
        with lock: fo.write(json.dumps(m)+'\n'); fo.flush()
        shutil.rmtree(d+'/replay',ignore_errors=True)
    shutil.rmtree(d)
env['GOCACHE']=cache
ts=[threading.Thread(target=worker,args=(k,)) for k in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
