#!/usr/bin/env python3
"""Make /verif/seeded/<id> from tools/seeds/<id>.py (development helper, not a check).
Each file defines PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (Go main body).
usage: seed.py [id...]   builds, runs tests and demo in a scratch copy."""
import sys, os, subprocess, json, shutil, re, glob
V="/verif"; SD=f"{V}/tools/seeds"; W="/tmp/seedwt"
DEMO_SH='''#!/bin/bash
# exit 0 if the behaviour holds, 1 if not
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go.txt"}}' "$R" "$D" > "$T/o.json"
go build @RACE@-overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
GORACE="exitcode=66" timeout 120 "$T/demo"
'''
HEAD='''package main

import (
	"fmt"
	"os"
IMPORTS)

func check(ok bool, f string, a ...any) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\\n", a...)
		os.Exit(1)
	}
}

'''
def run(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def one(i, tests=True):
    ns={}; exec(open(f"{SD}/{i}.py").read(),ns)
    shutil.rmtree(W,ignore_errors=True)
    run(f"git clone -q /repo {W}")
    for p,o,n in ns["EDITS"]:
        s=open(f"{W}/{p}").read()
        assert s.count(o)==1,(i,p,s.count(o),o)
        open(f"{W}/{p}","w").write(s.replace(o,n))
    orig={}
    for l in run(f"git -C {W} diff -U0").stdout.splitlines():
        if l.startswith("--- a/"): f=l[6:]; orig[f]=run(f"git -C {W} show f95f1cb:{f}").stdout.splitlines()
        elif l.startswith("-") and l[1:].strip() and l[1:] not in orig[f]: print("  not original:",l)
    d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
    diff=run(f"git -C {W} diff").stdout
    open(f"{d}/patch.diff","w").write(diff)
    imps=ns.get("IMPORTS",["github.com/cybergarage/go-sqlparser/sql"])
    body=ns["DEMO"]
    src=HEAD.replace("IMPORTS","".join(f'\t"{x}"\n' if '"' not in x else f"\t{x}\n" for x in imps))+body
    open(f"{d}/main.go.txt","w").write(src)
    open(f"{d}/demo.sh","w").write(DEMO_SH.replace("@RACE@","-race " if ns.get("RACE") else "")); os.chmod(f"{d}/demo.sh",0o755)
    json.dump({"property":ns["PROPERTY"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(f"{d}/meta.json","w"),indent=1)
    open(f"{d}/meta.json","a").write("\n")
    ok=run(f"bash {d}/demo.sh",cwd="/repo"); bad=run(f"bash {d}/demo.sh",cwd=W)
    res=f"clean={ok.returncode} patched={bad.returncode} {bad.stdout.strip()[:150]}"
    if ok.returncode!=0 or bad.returncode==0: res+=" BAD-DEMO "+ok.stdout[-300:]+ok.stderr[-600:]+bad.stderr[-300:]
    if tests:
        t=run(". /opt/vp/env.sh; cd "+W+"; go test ./... 2>&1 | grep -v '^ok\\|no test files' | tail -5")
        res+=" TESTS:"+(t.stdout.strip()[-300:] or "ok")
    print(i,ns["PROPERTY"],res,flush=True)
    shutil.rmtree(W,ignore_errors=True)
if __name__=="__main__":
    ids=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(SD+"/*.py"))
    for i in ids: one(i)
