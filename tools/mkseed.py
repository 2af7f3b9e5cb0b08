#!/usr/bin/env python3
"""mkseed.py SPEC.py : makes and confirms planted bugs (see the specs for the format).
A spec appends dicts to SEEDS: id, property, edits [(file, old, new)], needs, breaks, cases (text) and/or test (Go test body)."""
import os,sys,subprocess,shutil,json
WT='/tmp/seedwt'
DEMO_SH='''#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is not. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/verif_demo_test.go"
printf '{"Replace":{"%s/zygo/verif_demo_test.go":"%s/verif_demo_test.go"}}' "$repo" "$t" > "$t/overlay.json"
DEMO_CASES="$here/cases.txt" timeout 100 go test -vet=off -count=1 -timeout 60s -overlay "$t/overlay.json" -run '^TestVerifDemo$' ./zygo
'''
GO='''package zygo

import (
	"fmt"
	"os"
	"strings"
	"testing"
)

func demoEval(env *Zlisp, text string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("PANIC %v", r)
		}
	}()
	v, err := env.EvalString(text)
	if err != nil {
		return "!"
	}
	if v == nil {
		return "<nil>"
	}
	s := v.SexpString(nil)
	if env.datastack.Size() != 0 || env.addrstack.Size() != 0 || env.linearstack.Size() != 1 || env.loopstack.Size() != 0 {
		return s + " NOT-AT-REST"
	}
	return s
}

func TestVerifDemo(t *testing.T) {
	_ = strings.Split
	b, err := os.ReadFile(os.Getenv("DEMO_CASES"))
	if err != nil {
		t.Fatal(err)
	}
	for _, l := range strings.Split(string(b), "\\n") {
		p, w, ok := strings.Cut(l, " => ")
		if !ok {
			continue
		}
		env := NewZlisp()
		env.StandardSetup()
		var got []string
		for _, s := range strings.Split(p, " ;; ") {
			got = append(got, demoEval(env, strings.ReplaceAll(s, "\\\\n", "\\n")))
		}
		env.Close()
		want := strings.Split(w, " | ")
		for i := range got {
			if i >= len(want) || (want[i] != got[i] && !(want[i] == "*" && !strings.HasPrefix(got[i], "PANIC") && got[i] != "!")) {
				t.Errorf("%s: got %q want %q", p, got, want)
				break
			}
		}
	}
@BODY@
}
'''
def sh(cmd,cwd=WT,timeout=900):
    r=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
    return r.returncode,r.stdout+r.stderr
def main():
    SEEDS=[]
    only=sys.argv[2:]
    exec(open(sys.argv[1]).read(),{'SEEDS':SEEDS})
    shutil.rmtree(WT,ignore_errors=True)
    subprocess.run('cp -a /repo '+WT,shell=True,check=True)
    for s in SEEDS:
        if only and s['id'] not in only: continue
        sh('git checkout -q -- .')
        d='/tmp/seedout/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        ok=True
        for f,old,new in s['edits']:
            p=os.path.join(WT,f); t=open(p).read()
            if t.count(old)!=1:
                print(s['id'],'EDIT matches',t.count(old),'in',f); ok=False; break
            open(p,'w').write(t.replace(old,new))
        if not ok: continue
        open(d+'/demo.sh','w').write(DEMO_SH)
        imports=s.get('imports','')
        go=GO.replace('@BODY@',s.get('test',''))
        if imports: go=go.replace('import (','import (\n'+''.join('\t"%s"\n'%i for i in imports.split()))
        open(d+'/demo.go.txt','w').write(go+s.get('funcs',''))
        open(d+'/cases.txt','w').write(s.get('cases','').strip()+'\n')
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        rc,o=sh('gofmt -l zygo cmd')
        if o.split() and set(o.split())-set('zygo/blake2.go zygo/jsonmsgp_test.go zygo/scopes.go'.split()): print(s['id'],'gofmt',o.strip())
        rc,o=sh('git diff'); open(d+'/patch.diff','w').write(o)
        rc,o=sh('. /opt/vp/env.sh 2>/dev/null; GOFLAGS=-mod=mod go build ./zygo/... ./cmd/...')
        if rc: print(s['id'],'BUILD FAILS',o[:600]); continue
        rc,o=sh('bash %s/demo.sh'%d)
        if rc==0: print(s['id'],'DEMO PASSES WITH PATCH'); continue
        bad=o
        rc,o=sh('bash %s/demo.sh'%d,cwd='/repo')
        if rc: print(s['id'],'DEMO FAILS ON CLEAN',o[:1500]); continue
        # tests
        rc,o=sh('python3 /verif/tools/stable.py '+WT)
        if rc: print(s['id'],'TESTS NOTICE',o[:600]); continue
        shutil.rmtree('/verif/seeded/'+s['id'],ignore_errors=True)
        shutil.copytree(d,'/verif/seeded/'+s['id'])
        print(s['id'],'KEPT;',[l for l in bad.split('\n') if 'got' in l or 'demo' in l][:1])
    sh('git checkout -q -- .')
main()
