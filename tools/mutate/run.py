#!/usr/bin/env python3
"""Development tool: mutants of the library that its tests do not notice, and
which checks notice them.  usage: run.py OUT.jsonl [WORKERS] FILE...
Works through build overlays; /repo is only read."""
import json, os, subprocess, sys, tempfile, shutil, threading, queue
ROOT=os.environ.get('ROOT','/repo'); MON=os.environ.get('MON','/verif/mon')
ENV=dict(os.environ, GOFLAGS='-buildvcs=false -mod=readonly', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GOMAXPROCS='2')
CHECKS={'graphemes':'C06 C01 C13 C14 C15 C07 C09 C18 C08 C20 C12 C11 C05',
 'words':'C06 C02 C16 C17 C07 C09 C08 C21 C18 C20 C12 C11 C05',
 'phrases':'C06 C04 C07 C09 C08 C18 C20 C12 C11 C05','sentences':'C06 C03 C07 C09 C08 C18 C20 C12 C11 C05',
 'internal':'C22 C25 C06 C07'}
def sh(cmd, t, **k):
    try:
        p=subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
        try: o,_=p.communicate(timeout=t); return p.returncode,o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid,9); p.communicate(); return 'timeout',''
    except OSError as e: return 'err',str(e)
def one(path, m):
    d=tempfile.mkdtemp(prefix='mut.')
    try:
        src=open(path,'rb').read()
        open(d+'/m.go','wb').write(src[:m['Start']]+m['Text'].encode()+src[m['End']:])
        json.dump({'Replace':{path:d+'/m.go'}},open(d+'/ov.json','w'))
        pkg=os.path.dirname(path)[len(ROOT+'/'):]
        top=pkg.split('/')[0]
        rc,o=sh(['go','build','-overlay',d+'/ov.json','./'+pkg],120,cwd=ROOT,env=ENV)
        if rc: return 'nobuild'
        rc,o=sh(['go','test','-timeout','60s','-overlay',d+'/ov.json','./'+pkg]+(['./...'] if top=='internal' else []),200,cwd=ROOT,env=ENV)
        if rc: return 'tests'
        if top in ('graphemes','words'):
            rc,o=sh(['go','test','-timeout','60s','-overlay',d+'/ov.json','./...'],200,cwd=ROOT+'/'+top+'/comparative',env=ENV)
            if rc: return 'tests'
        ids=CHECKS[top].split()
        for name in ('mon','moni'):
            use=[i for i in ids if (i in('C22','C25'))==(name=='moni')]
            if not use: continue
            rc,o=sh(['go','build','-overlay',d+'/ov.json','-o',d+'/'+name,'./cmd/'+name],200,cwd=MON,env=ENV)
            if rc: return 'nobuild-mon '+o[-300:]
            for i in use:
                os.makedirs(d+'/v',exist_ok=True)
                rc,o=sh([d+'/'+name,i],400,cwd=d,env=dict(ENV,VERIF_DIR=d+'/v',VERIF_TIER='light',VERIF_SEED='1',VERIF_WORK=d))
                if rc==1: return 'caught '+i
                if rc=='timeout': return 'timeout '+i
                if rc: return 'rc%s %s %s'%(rc,i,o[-200:])
        return 'MISSED'
    finally: shutil.rmtree(d,ignore_errors=True)
def main():
    out=sys.argv[1]; n=int(sys.argv[2]); q=queue.Queue()
    done=set()
    if os.path.exists(out):
        for l in open(out):
            r=json.loads(l); done.add((r['file'],r['Start'],r['End'],r['Text']))
    for f in sys.argv[3:]:
        for l in subprocess.run(['/tmp/mutate',f],capture_output=True,text=True).stdout.splitlines():
            m=json.loads(l)
            if (f,m['Start'],m['End'],m['Text']) not in done: q.put((f,m))
    lock=threading.Lock(); w=open(out,'a')
    def work():
        while True:
            try: f,m=q.get_nowait()
            except queue.Empty: return
            r=one(f,m)
            with lock: w.write(json.dumps(dict(m,file=f,result=r))+'\n'); w.flush()
    ts=[threading.Thread(target=work) for _ in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
