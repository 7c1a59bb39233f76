#!/usr/bin/env python3
"""plant.py make SPEC.py [id...]   write /verif/seeded/<id> from SPEC.py's list B, and confirm each
   plant.py catch id...            run the property's quick check against the changed tree (in a scratch copy)
A spec: dict(id, property, needs, breaks, edits=[(file, old, new)...], pkg='.', demo=<Go test source>, race=False)
or, instead of pkg and demo, sh=<demo.sh text> and files={name: text}."""
import sys, os, subprocess, json, shutil, tempfile, runpy, re
V='/verif/seeded'
SH='''#!/bin/bash
# cwd: /repo. Exit 0 if the property holds in this demonstration.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$d" >"$t/o.json"
timeout 240 go test %(flags)s -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestSeededDemo$' ./%(pkg)s
'''
ENV=dict(os.environ,HOME='/root',GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off',GO111MODULE='on')
def run(cmd,cwd,t=600):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        return 124,str(e)
def copy(): 
    d=tempfile.mkdtemp(prefix='plant.'); shutil.rmtree(d); shutil.copytree('/repo',d,symlinks=True); return d
def rundemo(d,sd):
    # demo.sh sources env.sh, which changes to /repo: point it at the copy instead
    s=open(sd+'/demo.sh').read()
    tmp=tempfile.mkdtemp(prefix='plantd.')
    for f in os.listdir(sd):
        if not f.endswith(('.diff','.json')): shutil.copy(sd+'/'+f,tmp)
    open(tmp+'/demo.sh','w').write(s.replace('. /opt/vp/env.sh',"true"))
    r=run(['bash',tmp+'/demo.sh'],d,300)
    shutil.rmtree(tmp); return r
def make(b):
    d=copy()
    try:
        for f,old,new in b['edits']:
            s=open(d+'/'+f).read()
            if s.count(old)!=1: return 'edit of %s matches %d times: %r'%(f,s.count(old),old[:60])
            open(d+'/'+f,'w').write(s.replace(old,new))
        rc,o=run(['gofmt','-l','.'],d)
        rc,diff=run(['git','diff'],d)
        sd=V+'/'+b['id']; os.makedirs(sd,exist_ok=True)
        open(sd+'/patch.diff','w').write(diff)
        if 'sh' in b: open(sd+'/demo.sh','w').write(b['sh'])
        else:
            open(sd+'/demo.sh','w').write(SH%dict(pkg=b.get('pkg','.'),flags='-race' if b.get('race') else ''))
            open(sd+'/demo_test.go.txt','w').write(b['demo'].lstrip())
        for n,t in b.get('files',{}).items(): open(sd+'/'+n,'w').write(t)
        json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(sd+'/meta.json','w'),indent=1)
        rc,o=run(['go','build','./...'],d)
        if rc: return 'does not build: '+o[-800:]
        rc,o=run(['go','test','-vet=off','-count=1','./...'],d)
        if rc: return 'tests fail: '+o[-800:]
        rc,o=rundemo(d,sd)
        if rc==0: return 'demo passes with the change'
        bad=o[-300:]
        run(['git','checkout','--','.'],d)
        rc,o=rundemo(d,sd)
        if rc!=0: return 'demo fails without the change: '+o[-1200:]
        return 'ok (demo: %s)'%bad.replace('\n',' | ')[:260]
    finally: shutil.rmtree(d)
def catch(i,secs=None):
    m=json.load(open(V+'/'+i+'/meta.json')); d=copy()
    try:
        rc,o=run(['git','apply',V+'/'+i+'/patch.diff'],d)
        if rc: return 'patch does not apply '+o
        cmd=['bash','/verif/check.sh',m['property']]+(['--secs',secs] if secs else [])
        ENV['VERIF_REPO']=d
        import time; t=time.time()
        rc,o=run(cmd,'/verif',900)
        return '%s %s rc=%d %.0fs %s'%('CAUGHT' if rc==1 and 'VIOLATION property='+m['property'] in o else 'MISSED',m['property'],rc,time.time()-t,' | '.join(l[:230] for l in o.strip().splitlines()[-4:]))
    finally: shutil.rmtree(d)
if sys.argv[1]=='make':
    B=runpy.run_path(sys.argv[2])['B']
    for b in B:
        if sys.argv[3:] and b['id'] not in sys.argv[3:]: continue
        print(b['id'],make(b),flush=True)
else:
    secs=None
    for i in sys.argv[2:]:
        if i.startswith('secs='): secs=i[5:]; continue
        print(i,catch(i,secs),flush=True)
