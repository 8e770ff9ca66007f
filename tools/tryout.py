#!/usr/bin/env python3
"""Development aid: tries the changes listed in a Python file (bug(PROPS, [(file, old, new)...], note))
on a snapshot of /repo through a build overlay and tells which of the named checks report them.
usage: tryout.py BUGS.py [parallel] [only-regex]"""
import json, os, subprocess, sys, shutil, tempfile, time, re, threading, queue
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SNAP=tempfile.mkdtemp(prefix='trysnap.',dir='/tmp'); os.rmdir(SNAP); shutil.copytree(here+'/mc',SNAP)
REPO=SNAP+'-repo'; shutil.copytree('/repo',REPO)
g=SNAP+'/go.mod'; t=open(g).read().replace('=> /repo','=> '+REPO); open(g,'w').write(t)
par=int(sys.argv[2]) if len(sys.argv)>2 else 2
W=max(1,8//par)
env={}
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition('='); env[k]=v
env['GOCACHE']='/tmp/campcache'; env.update(VERIF_SEED='1',VERIF_TIER='quick')
base=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable_passing','passed','pass','stable','tests'):
            if k in x: return set(x[k])
    return set(x)
B=[]
def bug(props,edits,note=''): B.append((len(B),props,edits,note))
exec(compile(open(sys.argv[1]).read(),sys.argv[1],'exec'))
only=re.compile(sys.argv[3]) if len(sys.argv)>3 else None
def run(i,props,edits,note):
    d=tempfile.mkdtemp(prefix='try.',dir='/tmp')
    try:
        rep={}; files={}
        for f,a,b in edits:
            s=files.get(f) or open(REPO+'/'+f).read()
            if s.count(a)!=1: return 'BADEDIT %s %d of %r'%(f,s.count(a),a[:50])
            files[f]=s.replace(a,b)
        for n,(f,s) in enumerate(files.items()):
            p='%s/f%d.go'%(d,n); open(p,'w').write(s); rep[REPO+'/'+f]=p
        json.dump({'Replace':rep},open(d+'/o.json','w')); ov='-overlay='+d+'/o.json'
        e=dict(env)
        r=subprocess.run(['go','build',ov,'-o',d+'/diskii','.'],cwd=REPO,env=e,capture_output=True,text=True)
        if r.returncode: return 'nobuild '+r.stderr[:300]
        subprocess.run(['bash','-c',"go test %s -json -vet=off -count=1 -timeout 60s ./... > %s/t.log; python3 /opt/vp/results.py %s/t.json gojson:%s/t.log"%(ov,d,d,d)],cwd=REPO,env=e,capture_output=True)
        miss=names(base)-names(json.load(open(d+'/t.json')))
        if miss: return 'TESTS FAIL '+' '.join(x.split('/')[-1] for x in miss)
        shutil.copytree(SNAP,d+'/src'); shutil.copy(REPO+'/go.sum',d+'/src/go.sum')
        e['GOFLAGS']='-mod=mod -buildvcs=false'
        r=subprocess.run(['go','build',ov,'-o',d+'/mc','.'],cwd=d+'/src',env=e,capture_output=True,text=True)
        if r.returncode: return 'nomc '+r.stderr[:300]
        res=[]
        for p in props.split():
            shutil.rmtree(d+'/work',ignore_errors=True); os.mkdir(d+'/work'); os.makedirs(d+'/out',exist_ok=True)
            t0=time.time()
            r=subprocess.run([d+'/mc','-prop',p,'-tier','quick','-bin',d+'/diskii','-work',d+'/work','-out',d+'/out','-workers',str(W),'-deadline','1500'],env=e,capture_output=True,text=True,cwd=d)
            if r.returncode==1 and 'VIOLATION property=' in r.stdout:
                l=[x for x in r.stdout.splitlines() if 'VIOLATION' not in x][-2:]
                res.append('%s caught %ds: %s'%(p,time.time()-t0,' '.join(l)[:170]))
            else: res.append('%s MISSED (exit %d, %ds)'%(p,r.returncode,time.time()-t0))
        return '\n     '.join(res)
    finally: shutil.rmtree(d,ignore_errors=True)
q=queue.Queue(); lock=threading.Lock()
for b in B:
    if not only or only.search('%d %s %s'%(b[0],b[1],b[3])): q.put(b)
def work():
    while True:
        try: b=q.get_nowait()
        except queue.Empty: return
        try: s=run(*b)
        except Exception as x: s='EXC %r'%x
        with lock: print('#%d %s | %s'%(b[0],b[3],s),flush=True)
ts=[threading.Thread(target=work) for _ in range(par)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(SNAP,ignore_errors=True); shutil.rmtree(REPO,ignore_errors=True)
