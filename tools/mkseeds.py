#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the list below and confirms each one in scratch copies of /repo:
applies, touches original lines, builds, passes the stable tests, demo 0 without / nonzero with."""
import json, os, re, subprocess, sys, shutil, tempfile
V="/verif"; R="/repo"
S=[]
def seed(id,prop,edits,demo,needs,breaks): S.append((id,prop,edits,demo,needs,breaks))
exec(open(f"{V}/tools/seeds.py").read())
DEMO='''#!/bin/bash
# run with cwd = the tree under test; exit 0 if it behaves, 1 if not
R=$(pwd); D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
cp "$D/main.go.txt" "$T/main.go"
printf 'module demo\\n\\ngo 1.15\\n\\nrequire github.com/ecoshub/jin v0.0.0\\n\\nreplace github.com/ecoshub/jin => %s\\n' "$R" > "$T/go.mod"
cd "$T" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o demo . && timeout 60 ./demo
RC=$?
cd / && find "$T" -delete
exit $RC
'''
HEAD='''package main

import (
	"fmt"
	"os"

	"github.com/ecoshub/jin"
)

var _ = jin.Get
var _ = fmt.Sprint

func expect(name string, got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fmt.Printf("%s: got %v, want %v\\n", name, got, want)
		os.Exit(1)
	}
}

func main() {
'''
def sh(c,cwd=None): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
only=set(sys.argv[1:])
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
orig={f:set(subprocess.run(["git","-C",R,"show","b2c2abd:"+f],stdout=subprocess.PIPE,text=True).stdout.splitlines()) for f in os.listdir(R) if f.endswith(".go")}
for id,prop,edits,demo,needs,breaks in S:
    if only and id not in only: continue
    T=tempfile.mkdtemp(prefix="seed-")
    try:
        sh(f"cp -a {R} {T}/repo")
        W=f"{T}/repo"; ok=True
        for f,a,b in edits:
            s=open(f"{W}/{f}").read()
            if s.count(a)!=1: print(id,"EDIT matches",s.count(a),repr(a)); ok=False; break
            open(f"{W}/{f}","w").write(s.replace(a,b))
        if not ok: continue
        sh("gofmt -l . ",W)
        diff=sh("git diff",W).stdout
        for l in diff.splitlines():
            pass
        removed=[(l[1:]) for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        notorig=[l for l in removed if not any(l in o for o in orig.values())]
        D=f"{V}/seeded/{id}"; os.makedirs(D,exist_ok=True)
        open(f"{D}/patch.diff","w").write(diff)
        open(f"{D}/demo.sh","w").write(DEMO); os.chmod(f"{D}/demo.sh",0o755)
        open(f"{D}/main.go.txt","w").write(HEAD+"\n".join("\t"+l for l in demo.strip("\n").splitlines())+"\n}\n")
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(f"{D}/meta.json","w"),indent=1)
        b=sh("go build ./... && go vet . 2>&1 | head -5",W)
        clean=sh(f"bash {D}/demo.sh",R); bad=sh(f"bash {D}/demo.sh",W)
        # stable tests
        j=sh("go test -json . 2>/dev/null",W).stdout
        passed=set()
        for l in j.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get("Action")=="pass" and e.get("Test"): passed.add(e["Test"])
        miss=[x for x in stable if x.split("/")[-1].split("::")[-1] not in passed and x not in passed]
        print(id,prop,"build",b.returncode,"clean",clean.returncode,"patched",bad.returncode,"missing tests",len(miss),miss[:3],"notorig",notorig,bad.stdout.strip()[:150] if bad.returncode!=1 or clean.returncode else bad.stdout.strip()[:100])
        if clean.returncode: print("   CLEAN:",clean.stdout[:500])
    finally:
        sh(f"find {T} -delete")
