#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes /verif/seeded/<id>/ for every bug(...) of the spec, using a scratch copy of /repo."""
import sys,os,subprocess,json,tempfile,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO='''#!/bin/bash
# run in the repository: exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.23.12/bin:$PATH GOENV=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/opt/vp/gocache}
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" >"$t/overlay.json"
go test -vet=off %s-overlay "$t/overlay.json" -count=1 -timeout 200s -run '^TestDemo$' ./%s
'''
def bug(id,prop,edits,pkg,test,needs,breaks,race=False,demo=None):
    d=os.path.join(V,'seeded',id)
    s=tempfile.mkdtemp(prefix='mkbug')
    try:
        r=s+'/r'
        subprocess.check_call(['git','clone','-q','/repo',r])
        for f,a,b in edits:
            p=os.path.join(r,f); t=open(p).read()
            assert t.count(a)==1,(id,f,t.count(a),a)
            open(p,'w').write(t.replace(a,b))
        diff=subprocess.check_output(['git','diff'],cwd=r,text=True)
        assert diff
        for f,a,b in edits: # only lines of the original repository are changed
            base=subprocess.check_output(['git','show',subprocess.check_output(['git','rev-list','--max-parents=0','HEAD'],cwd=r,text=True).strip()+':'+f],cwd=r,text=True).split('\n')
            own=[l[1:] for l in subprocess.check_output(['git','diff','-U0',f],cwd=r,text=True).split('\n') if l.startswith('-') and not l.startswith('---')]
            if not own or any(l not in base for l in own): print(id,f,'changes no line, or lines that are not original:',[l for l in own if l not in base])
    finally: shutil.rmtree(s)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(demo or DEMO%(pkg,'-race ' if race else '',pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(test)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
exec(open(sys.argv[1]).read())
