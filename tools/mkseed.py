#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: (re)creates /verif/seeded/ID from the specs and confirms them.

A spec file calls seed(id, prop, pkg, edits, demo, needs, breaks).  edits is a
list of (file, old, new).  For each seed: apply the edits in a scratch copy of
/repo, build, run the tests, run the demonstration with and without the patch,
then run every claimed check on the patched copy and print which ones report
it.
"""
import sys,os,subprocess,json,shutil,tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
ENV=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOWORK="off",GOTOOLCHAIN="local")
DEMO="""#!/bin/bash
# Runs the demonstration next to this file as an in-package test.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
timeout 200 go test -count=1 -vet=off %(flags)s-overlay "$tmp/overlay.json" -run 'TestZZDemo' ./%(pkg)s
"""
only=set(sys.argv[2:])
results={}
def run(cmd,cwd,**k):
    return subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def seed(id,prop,pkg,edits,demo,needs,breaks,flags=""):
    if only and id not in only: return
    d=tempfile.mkdtemp(prefix="seed"); m=os.path.join(d,"m")
    try:
        subprocess.run(["cp","-a","/repo",m],check=True)
        out=os.path.join(VERIF,"seeded",id); os.makedirs(out,exist_ok=True)
        open(os.path.join(out,"demo_test.go"),"w").write(demo)
        dp=os.path.join(out,"demo.sh"); open(dp,"w").write(DEMO%dict(pkg=pkg,flags=flags+" " if flags else "")); os.chmod(dp,0o755)
        r=run(["bash",dp],m)
        if r.returncode!=0: print(id,"DEMO FAILS ON CLEAN TREE\n",r.stdout[:int(os.environ.get("N","200"))]); return
        for f,a,b in edits:
            p=os.path.join(m,f); s=open(p).read()
            if s.count(a)!=1: print(id,"EDIT MATCHES",s.count(a),repr(a)); return
            open(p,"w").write(s.replace(a,b))
        run(["gofmt","-l","."],m)
        r=run(["go","build","./..."],m)
        if r.returncode!=0: print(id,"BUILD\n",r.stdout[:int(os.environ.get("N","200"))]); return
        r=run(["go","test","-vet=off","-count=1","./..."],m)
        if r.returncode!=0: print(id,"TESTS CATCH IT\n",r.stdout[:int(os.environ.get("N","200"))]); return
        r=run(["bash",dp],m)
        if r.returncode==0: print(id,"DEMO PASSES WITH PATCH"); return
        diff=run(["git","diff","--","*.go"],m).stdout
        open(os.path.join(out,"patch.diff"),"w").write(diff)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(os.path.join(out,"meta.json"),"w"),indent=1)
        man=json.load(open(os.path.join(VERIF,"MANIFEST.json")))
        claimed=[c["property"] for c in man["checks"]]
        r=run([os.environ.get("CHECKER","/tmp/checker"),"-repo",m,"-summary",",".join(claimed)],d)
        caught=[l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION ")]
        ok = "CAUGHT" if prop in caught else ("MISSED" if prop in claimed else "unclaimed")
        print("%-28s %-4s %-9s by %s"%(id,prop,ok," ".join(sorted(set(caught)))),flush=True)
        results[id]=(prop,sorted(set(caught)))
        if r.returncode not in (0,1): print(r.stdout[-800:])
    finally:
        shutil.rmtree(d)
exec(compile(open(sys.argv[1]).read(),sys.argv[1],"exec"))
mp=os.path.join(HERE,"seeds","matrix.json")
old=json.load(open(mp)) if os.path.exists(mp) else {}
old.update(results); json.dump(old,open(mp,"w"),indent=1,sort_keys=True)
