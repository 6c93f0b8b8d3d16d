#!/usr/bin/env python3
"""Development tool: make and confirm planted bugs (no check runs it).

usage: plant.py FILE.py [ID...]   FILE.py defines BUGS, a list of dicts:
 id, property, needs, breaks, edits=[(path, old, new)...], demo (Go main body)
Confirms in a scratch copy: builds, stable tests pass, demo 0 clean / nonzero
patched; writes /verif/seeded/<id>/. Then runs the property's check against it.
"""
import json, os, shutil, subprocess, sys, tempfile
SEED='/verif/seeded'
ENV=dict(os.environ, GOFLAGS='-buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local')
DEMO='''#!/bin/bash
# Exits 0 if the property holds on this demonstration. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$repo/@MOD@" || exit 2
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go.txt"}}' "$PWD" "$here" >"$d/overlay.json"
go build @FLAGS@ -overlay "$d/overlay.json" -o "$d/demo" ./zzdemo || exit 2
cd "$d" && timeout 120 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def stable(repo):
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok=set()
    for d in ('.','graphemes/comparative','words/comparative','internal/gen'):
        p=sh('go test -json ./... 2>/dev/null', cwd=f'{repo}/{d}', env=ENV)
        bad=[]
        for l in p.stdout.splitlines():
            try: e=json.loads(l)
            except: continue
            if e.get('Action')=='fail': bad.append((e.get('Package'),e.get('Test')))
        if bad: return bad[:3]
    return []
def main():
    ns={}; exec(open(sys.argv[1]).read(), ns)
    want=set(sys.argv[2:])
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        t=tempfile.mkdtemp(prefix='plant.'); repo=t+'/repo'
        try:
            shutil.copytree('/repo', repo, symlinks=True)
            r=sh('git status --short', cwd=repo); assert not r.stdout, r.stdout
            demo=t+'/demo'; os.makedirs(demo)
            ds=DEMO.replace('@MOD@', b.get('mod','.')).replace('@FLAGS@', b.get('flags',''))
            if 'sh' in b: ds=b['sh']
            open(demo+'/demo.sh','w').write(ds); os.chmod(demo+'/demo.sh',0o755)
            for fn,text in b.get('files',{}).items(): open(demo+'/'+fn,'w').write(text)
            if 'demo' in b: open(demo+'/demo.go.txt','w').write(b['demo'])
            c=sh(f'timeout 300 {demo}/demo.sh', cwd=repo)
            if c.returncode: print(b['id'],'DEMO FAILS ON CLEAN',c.stdout[-800:],c.stderr[-800:]); continue
            bad=False
            for path,old,new in b['edits']:
                s=open(f'{repo}/{path}').read()
                n=s.count(old)
                if n!=1: print(b['id'],'EDIT MATCHES',n,path,repr(old[:60])); bad=True; break
                open(f'{repo}/{path}','w').write(s.replace(old,new))
            if bad: continue
            v=sh('go build ./... && go vet ./graphemes ./words ./phrases ./sentences && (cd internal/gen && go build ./...)',cwd=repo,env=ENV)
            if v.returncode: print(b['id'],'DOES NOT BUILD',v.stderr[-800:]); continue
            bad=stable(repo)
            if bad: print(b['id'],'TESTS CATCH IT',bad); continue
            c=sh(f'timeout 300 {demo}/demo.sh', cwd=repo)
            if c.returncode in (0,2) : print(b['id'],'DEMO DOES NOT SHOW IT',c.returncode,c.stdout[-800:],c.stderr[-800:]); continue
            diff=sh('git diff',cwd=repo).stdout
            d=f'{SEED}/{b["id"]}'
            if os.path.isdir(d): shutil.rmtree(d)
            os.makedirs(d)
            open(d+'/patch.diff','w').write(diff)
            shutil.copy(demo+'/demo.sh',d)
            if 'demo' in b: shutil.copy(demo+'/demo.go.txt',d)
            for fn in b.get('files',{}): shutil.copy(demo+'/'+fn,d)
            json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
            print(b['id'],'KEPT; demo says:',(c.stdout+c.stderr).strip().splitlines()[:1])
        finally:
            shutil.rmtree(t,ignore_errors=True)
main()
