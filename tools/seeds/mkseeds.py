#!/usr/bin/env python3
"""Generates /verif/seeded from the lists here and confirms every entry.
usage: mkseeds.py [-n] [ids...]   (-n: only generate and confirm, do not run the checks)"""
import sys, os, json, subprocess, shutil, tempfile, glob, importlib
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here); sys.dont_write_bytecode=True
import list1
for f in sorted(glob.glob(here+'/list*.py')):
    n=os.path.basename(f)[:-3]
    if n!='list1': importlib.import_module(n)
args=[a for a in sys.argv[1:] if a!='-n']; nocheck='-n' in sys.argv
IMPORTS={'curves.':'github.com/Wieku/gosu-pp/math/curves','vector.':'github.com/Wieku/gosu-pp/math/vector','objects.':'github.com/Wieku/gosu-pp/beatmap/objects',
 'timing.':'github.com/Wieku/gosu-pp/beatmap/timing','mutils.':'github.com/Wieku/gosu-pp/math/mutils','math32.':'github.com/Wieku/gosu-pp/math/math32','files.':'github.com/Wieku/gosu-pp/files',
 'preprocessing.':'github.com/Wieku/gosu-pp/performance/osu/preprocessing','skills.':'github.com/Wieku/gosu-pp/performance/osu/skills','osu.':'github.com/Wieku/gosu-pp/performance/osu',
 'difficulty.':'github.com/Wieku/gosu-pp/beatmap/difficulty','beatmap.':'github.com/Wieku/gosu-pp/beatmap','fmt.':'fmt','math.':'math','strings.':'strings','bytes.':'bytes',
 'utf16.':'unicode/utf16','iotest.':'testing/iotest','io.':'io','errors.':'errors','sort.':'sort','sync.':'sync','time.':'time'}
import re
def gofile(body):
    code=re.sub(r'"(\\.|[^"\\])*"','""',body)
    imps=[v for k,v in IMPORTS.items() if re.search(r'(?<![\w.])'+re.escape(k)+'[A-Z]',code)]
    return 'package main\n\nimport (\n'+''.join('\t"%s"\n'%i for i in imps)+')\n\nfunc main() {'+body+'}\n'
import builtins
def print(*a): builtins.print(*a,flush=True)
def run(cmd,cwd=None,env=None,timeout=1200):
    r=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout); return r.returncode,r.stdout
goenv=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOCACHE='/root/.cache/go-build',GOMODCACHE='/root/go/pkg/mod')
scratch=tempfile.mkdtemp(prefix='seedscratch.'); repo=scratch+'/repo'
subprocess.check_call(['cp','-a','/repo',repo])
bad=0; results={}
try:
    for s in list1.S:
        if args and s['id'] not in args: continue
        d=root+'/seeded/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        subprocess.check_call(['git','-C',repo,'checkout','-q','--','.'])
        open(d+'/main.go.txt','w').write(gofile(s['body'])); shutil.copy(here+'/helper.go.txt',d)
        open(d+'/demo.sh','w').write(open(here+'/demo.sh.txt').read().replace('@RACE@ ','-race ' if s['race'] else '')); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        msg=[]
        if 'finish()' in s['body']:
            rc,o=run([d+'/demo.sh'],cwd=repo,env=dict(os.environ,DEMO_GOLDEN_OUT=d+'/golden.json'))
            if rc: msg.append('golden '+o)
        rc,o=run([d+'/demo.sh'],cwd=repo)
        if rc: msg.append('DEMO FAILS UNPATCHED '+o)
        ok=True
        for f,old,new in s['edits']:
            t=open(repo+'/'+f).read()
            if t.count(old)!=1: msg.append('EDIT %s matches %d: %s'%(f,t.count(old),old[:60])); ok=False; break
            open(repo+'/'+f,'w').write(t.replace(old,new))
        if ok:
            run(['gofmt','-l']+[e[0] for e in s['edits']],cwd=repo,env=goenv)
            p=subprocess.run(['git','-C',repo,'diff'],stdout=subprocess.PIPE).stdout; open(d+'/patch.diff','wb').write(p)
            rc,o=run(['go','build','./...'],cwd=repo,env=goenv)
            if rc: msg.append('BUILD '+o)
            rc,o=run(['go','test','-vet=off','-count=1','./...'],cwd=repo,env=goenv)
            if rc: msg.append('TESTS FAIL '+o[-300:])
            rc,o=run([d+'/demo.sh'],cwd=repo)
            if rc==0: msg.append('DEMO PASSES PATCHED')
            demo=o.strip()[:120].replace('\n',' / ')
        if msg: bad+=1; print(s['id'],'INVALID',msg); continue
        if nocheck: print(s['id'],'valid |',demo); continue
        subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
        try: rc,o=run([root+'/run.sh',s['prop'],'quick'])
        finally: subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
        caught=rc==1 and ('VIOLATION property=%s '%s['prop']) in o
        if not caught: bad+=1
        print(s['id'],s['prop'],'CAUGHT' if caught else 'MISSED rc=%d'%rc,'|',demo,'|',o.strip()[-200:].replace('\n',' / ')); sys.stdout.flush()
finally: shutil.rmtree(scratch)
print('bad',bad)
