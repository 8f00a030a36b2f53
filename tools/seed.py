#!/usr/bin/env python3
# seed.py [id...]: (re)creates the planted bugs of seeds.py under /verif/seeded after confirming, in a scratch copy
# of /repo, that each compiles, passes the stable tests, and is told apart by its demonstration.
import json,os,re,shutil,subprocess,sys,tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
ENV=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOWORK='off',CGO_ENABLED='0',HOME='/root')
DEMO='''#!/bin/bash
# exits 0 when the property holds for the demonstrated input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
R=$PWD
cat > "$S/overlay.json" <<EOF
{"Replace": {
  "$R/parser.go": "", "$R/unparser.go": "", "$R/openapi/openapi_test.go": "",
  "$R/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"
}}
EOF
export TMPDIR=$S
go test -vet=off -count=1 -timeout 60s -overlay "$S/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def one(s):
    d='/verif/seeded/'+s['id']; W=tempfile.mkdtemp(prefix='seed')+'/r'
    try:
        shutil.copytree('/repo',W,symlinks=True)
        os.makedirs(d,exist_ok=True)
        open(d+'/demo.sh','w').write(DEMO%dict(pkg=s.get('pkg','.'))); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go','w').write(s['demo'].lstrip())
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        r=run(['bash',d+'/demo.sh'],W)
        if r.returncode!=0: return 'demo fails on the unchanged tree:\n'+r.stdout[-1500:]+r.stderr[-1500:]
        for f,old,new in s['edits']:
            t=open(W+'/'+f).read()
            if t.count(old)!=1: return '%s: %d matches of %r'%(f,t.count(old),old)
            open(W+'/'+f,'w').write(t.replace(old,new))
        open(d+'/patch.diff','w').write(run(['git','diff'],W).stdout)
        ov=W+'/../o.json'; o=json.load(open('/opt/vp/overlay.json'))
        json.dump({'Replace':{k.replace('/repo',W):v for k,v in o['Replace'].items()}},open(ov,'w'))
        pk=[p for p in run(['go','list','-e','-find','./...'],W).stdout.split() if not re.search(r'/sadl/(smithy|cmd)(/|$)',p)]
        r=run(['go','build','-overlay',ov]+[p for p in pk if not p.endswith('/test')],W)
        if r.returncode: return 'does not build: '+r.stderr[-800:]
        r=run(['go','test','-vet=off','-count=1','-v','-overlay',ov]+pk,W)
        for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
            if '--- PASS: '+t.split('/')[-1]+' ' not in r.stdout: return 'fails '+t
        r=run(['bash',d+'/demo.sh'],W)
        if r.returncode==0: return 'demo passes with the change'
        return 'ok   '+(re.search(r'(panic: .*|demo_test.go:\d+: .*|test timed out)',r.stdout) or [r.stdout[-300:]])[0][:150]
    finally: shutil.rmtree(os.path.dirname(W),ignore_errors=True)
want=sys.argv[1:]
ids=[s['id'] for s in SEEDS]; assert len(ids)==len(set(ids))
for s in SEEDS:
    if want and s['id'] not in want: continue
    if not want and os.path.exists('/verif/seeded/'+s['id']+'/patch.diff'): continue
    print(s['id'],one(s),flush=True)
