#!/usr/bin/env python3
"""gen: writes '+ROOT+'/seeded/<id>; verify: scratch build/test/demo; detect: runs the check in the scratch copy."""
import sys, os, subprocess, json, shutil, re, importlib.util
SB='/tmp/seed5/sb'
ROOT='/tmp/vw'
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',CGO_ENABLED='0',GOTELEMETRY='off')
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd,cwd,env=ENV,timeout=900):
    try:
        r=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,shell=isinstance(cmd,str))
        return r.returncode,r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 99,'timeout'
def fresh():
    if os.path.exists(SB): shutil.rmtree(SB)
    shutil.copytree('/repo',SB,symlinks=True)
HELP='''package xbnf

import (
	"testing"
%s)

func gr(t *testing.T, text string) *Grammar {
	g, err := NewGrammarFromString(text)
	if err != nil {
		t.Fatal(err)
	}
	return g
}

// used returns the text a rule takes from the start of a text, or "<none>"
func used(g *Grammar, rule, text string) string {
	r := g.EvalRule(rule, text)
	if r.Node == nil {
		return "<none>"
	}
	return string(r.CharsRead[:len(r.CharsRead)-len(r.CharsUnused)])
}

func TestDemo(t *testing.T) {
%s
}
'''
SHT='''#!/bin/bash
# exit 0: the property holds in this demonstration
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
trap 'rm -f -- "$o"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=%s GOTELEMETRY=off
printf '{"Replace":{"%%s/%szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" >"$o"
go test -overlay "$o" -vet=off -count=1 -timeout 60s %s-run '^TestDemo$' ./%s
'''
def gen(s):
    d=ROOT+'/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    fresh()
    for f,old,new in s['edits']:
        p=SB+'/'+f; t=open(p).read()
        after=None
        if isinstance(old,tuple): after,old=old
        i=t.index(after) if after else 0
        assert t.find(old,i)>=0,(s['id'],'old text not found')
        if not after: assert t.count(old)==1,(s['id'],'ambiguous',t.count(old))
        j=t.index(old,i)
        t=t[:j]+new+t[j+len(old):]
        open(p,'w').write(t)
    sh('gofmt -w *.go main/*.go',SB)
    rc,o=sh('git diff',SB); open(d+'/patch.diff','w').write(o)
    imps=''.join('\t"%s"\n'%x for x in s.get('imports',[]))
    body=s['demo'].strip('\n')
    if s.get('raw'): open(d+'/demo_test.go','w').write(body+'\n')
    else: open(d+'/demo_test.go','w').write(HELP%(imps,body))
    main=s.get('main',False)
    open(d+'/demo.sh','w').write(SHT%('1' if s.get('race') else '0','main/' if main else '','-race ' if s.get('race') else '','main' if main else ''))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/meta.json','a').write('\n')
    sh('gofmt -w '+d+'/demo_test.go','/')
def verify(i):
    d=ROOT+'/seeded/'+i
    fresh()
    msgs=[]
    rc,o=sh(['bash',d+'/demo.sh'],SB)
    if rc!=0: msgs.append('demo fails on clean tree: '+o[-800:])
    rc,o=sh(['git','apply',d+'/patch.diff'],SB)
    if rc!=0: msgs.append('patch: '+o)
    rc,o=sh(['go','build','./...'],SB)
    if rc!=0: msgs.append('build: '+o)
    rc,o=sh('go test -json -vet=off -count=1 -timeout 2m ./...',SB)
    ok=set()
    for l in o.splitlines():
        try: j=json.loads(l)
        except Exception: continue
        if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package']+'/'+j['Test'])
    miss=BASE-ok
    if miss: msgs.append('tests fail: '+', '.join(sorted(miss)[:5]))
    rc,o=sh(['bash',d+'/demo.sh'],SB)
    if rc==0: msgs.append('demo passes with the patch')
    # lines
    for l in open(d+'/patch.diff'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            rc,b=sh(['git','log','--format=%h','-S'+l[1:].rstrip('\n'),'--','.'],'/repo')
            if '4ea80d1' not in b: msgs.append('not an original line: '+l.strip())
    print(i,'OK' if not msgs else 'BAD '+' | '.join(msgs),flush=True)
    return not msgs
def detect(i,tier='quick',props=None):
    d=ROOT+'/seeded/'+i
    fresh(); sh(['git','apply',d+'/patch.diff'],SB)
    p=json.load(open(d+'/meta.json'))['property']
    for q in (props or [p]):
        import time; t=time.time()
        rc,o=sh(['./check.sh',q,'-tier',tier],ROOT,dict(os.environ,VERIF_REPO=SB),1200)
        print('  ',i,q,'exit',rc,'%.1fs'%(time.time()-t),'CAUGHT' if rc==1 and 'VIOLATION property='+q in o else 'MISSED '+o[-700:],flush=True)
if __name__=='__main__':
    cmd=sys.argv[1]; args=sys.argv[2:]
    if cmd=='gen':
        sp=importlib.util.spec_from_file_location('s',args[0]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.S:
            if len(args)>1 and s['id'] not in args[1:]: continue
            gen(s); verify(s['id'])
    elif cmd=='verify':
        for i in args or sorted(os.listdir(ROOT+'/seeded')): verify(i)
    elif cmd=='detect':
        for i in args or sorted(os.listdir(ROOT+'/seeded')): detect(i)
