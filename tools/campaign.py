#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it): applies each change listed by
tools/mutate through a build overlay (nothing in /repo is touched), keeps those that build and
pass the stable tests, and runs the checks of the file until one reports a violation.
usage: campaign.py MUTS.jsonl OUT.jsonl [parallel]"""
import json, os, subprocess, sys, shutil, tempfile, time, re, threading, queue
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]; par=int(sys.argv[3]) if len(sys.argv)>3 else 4
SNAP=tempfile.mkdtemp(prefix='mcsnap.',dir='/tmp'); os.rmdir(SNAP); shutil.copytree('/verif/mc',SNAP)
REPO=SNAP+'-repo'; shutil.copytree('/repo',REPO)
g=SNAP+'/go.mod'; open(g,'r+').write(open(g).read().replace('=> /repo','=> '+REPO))
W=max(1,8//par)
CH={'basic/applesoft/applesoft.go':'C18 C17','basic/integer/integer.go':'C19 C17','basic/basic.go':'C18 C19 C17',
'cmd/applesoft.go':'C25 C21 C18 C19 C27','cmd/catalog.go':'C22 C25 C21 C27','cmd/delete.go':'C22 C21 C25 C27','cmd/dump.go':'C22 C21 C25 C27','cmd/filetypes.go':'C23 C25 C21 C27',
'cmd/nakedos.go':'C22 C08 C21 C27','cmd/put.go':'C22 C21 C25 C27','cmd/reorder.go':'C01 C21 C25 C27','cmd/sd.go':'C20 C21 C25 C27',
'disk/disk.go':'C01 C24 C02','disk/marshal.go':'C24 C12','disk/open.go':'C02 C03 C01 C22 C21','dos3/dos3.go':'C09 C26 C10 C12 C14 C03 C22',
'errors/errors.go':'C04 C22 C21','helpers/helpers.go':'C22 C25 C21 C01','main.go':'C27 C22 C21 C25 C03','prodos/prodos.go':'C11 C26 C12 C13 C15 C03 C22',
'supermon/supermon.go':'C06 C26 C07 C08 C03 C04 C05 C16 C22','types/filetype.go':'C23 C04','types/ops.go':'C22 C21','types/types.go':'C22'}
base=json.load(open('/opt/vp/BASELINE.json'))
done=set()
if os.path.exists(out):
    done={json.loads(l)['id'] for l in open(out)}
env={}
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition('='); env[k]=v
env['GOCACHE']='/tmp/campcache'
env.update(VERIF_SEED='1',VERIF_TIER='quick')
stable=None
def names(x):
    if isinstance(x,dict):
        for k in ('stable_passing','passed','pass','stable','tests'):
            if k in x: return set(x[k])
    return set(x)
ALL='./basic/applesoft ./dos3 ./prodos ./supermon'
TP={'basic/applesoft':'./basic/applesoft','dos3':'./dos3','prodos':'./prodos','supermon':'./supermon','cmd':'','basic/integer':'','':''}
lock=threading.Lock()
q=queue.Queue()
for m in muts:
    if m['id'] not in done: q.put(m)
def run(m):
    d=tempfile.mkdtemp(prefix='mut.',dir='/tmp')
    try:
        src=open(REPO+'/'+m['file'],'rb').read()
        new=src[:m['start']]+m['repl'].encode()+src[m['end']:]
        open(d+'/f.go','wb').write(new)
        json.dump({'Replace':{REPO+'/'+m['file']:d+'/f.go'}},open(d+'/o.json','w'))
        ov='-overlay='+d+'/o.json'
        e=dict(env)
        r=subprocess.run(['go','build',ov,'-o',d+'/diskii','.'],cwd=REPO,env=e,capture_output=True)
        if r.returncode: return 'nobuild',None,0
        pk=os.path.dirname(m['file'])
        r=TP.get(pk,ALL) and subprocess.run(['bash','-c',"go test %s -json -vet=off -count=1 -timeout 60s %s > %s/t.log; python3 /opt/vp/results.py %s/t.json gojson:%s/t.log"%(ov,TP.get(pk,ALL),d,d,d)],cwd=REPO,env=e,capture_output=True)
        t=json.load(open(d+'/t.json')) if TP.get(pk,ALL) else []
        if TP.get(pk,ALL) and {n for n in names(base)-names(t) if pk not in TP or '/'+pk+'/' in n}: return 'tests',None,0
        shutil.copytree(SNAP,d+'/src'); shutil.copy(REPO+'/go.sum',d+'/src/go.sum')
        e['GOFLAGS']='-mod=mod -buildvcs=false'
        r=subprocess.run(['go','build',ov,'-o',d+'/mc','.'],cwd=d+'/src',env=e,capture_output=True)
        if r.returncode: return 'nomc',None,0
        t0=time.time()
        L=m.get('checks',CH[m['file']]).split()
        for p,stride in ([] if os.environ.get('FULL') else [(p,37) for p in L])+([] if os.environ.get('SMOKE') else [(p,1) for p in L]):
            shutil.rmtree(d+'/work',ignore_errors=True); os.mkdir(d+'/work'); os.makedirs(d+'/out',exist_ok=True)
            try:
                r=subprocess.run([d+'/mc','-prop',p,'-tier','quick','-bin',d+'/diskii','-work',d+'/work','-out',d+'/out','-workers',str(W),'-stride',str(stride),'-deadline','900'],env=e,capture_output=True,text=True,timeout=1800,cwd=d)
            except subprocess.TimeoutExpired: return 'timeout',p,time.time()-t0
            if r.returncode==1 and 'VIOLATION property=' in r.stdout: 
                return 'killed',p,time.time()-t0
            if r.returncode!=0: return 'odd%d'%r.returncode,p,time.time()-t0
        return 'SURVIVED',None,time.time()-t0
    finally:
        shutil.rmtree(d,ignore_errors=True)
def work():
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        try: s,p,t=run(m)
        except Exception as x: s,p,t='exc '+str(x),None,0
        m=dict(m,status=s,by=p,secs=round(t,1))
        with lock:
            open(out,'a').write(json.dumps(m)+'\n')
ts=[threading.Thread(target=work) for _ in range(par)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(SNAP,ignore_errors=True); shutil.rmtree(REPO,ignore_errors=True)
