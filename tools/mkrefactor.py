#!/usr/bin/env python3
"""mkrefactor.py SPEC.py [ID...]: applies behaviour-preserving edits to scratch
copies of /repo and prints the checks that (wrongly) report something."""
import sys,os,subprocess,shutil,tempfile,json
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
ENV=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOWORK="off",GOTOOLCHAIN="local")
only=set(sys.argv[2:])
def run(cmd,cwd): return subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
bad=0
todo=[]
def refactor(id,*edits):
    if not only or id in only: todo.append((id,)+edits)
def one(id,*edits):
    global bad
    d=tempfile.mkdtemp(prefix="refac"); m=os.path.join(d,"m")
    try:
        subprocess.run(["cp","-a","/repo",m],check=True)
        for f,a,b in edits:
            p=os.path.join(m,f); s=open(p).read()
            if a is None: s=s+b
            elif s.count(a)<1: print(id,"NO MATCH",repr(a)); return
            else: s=s.replace(a,b)
            open(p,"w").write(s)
        r=run(["go","build","./..."],m)
        if r.returncode: print(id,"BUILD",r.stdout[:600]); return
        r=run(["go","test","-vet=off","-count=1","./..."],m)
        if r.returncode: print(id,"TESTS",r.stdout[:600]); return
        man=json.load(open(os.path.join(VERIF,"MANIFEST.json")))
        claimed=os.environ.get("PROPS") or ",".join(c["property"] for c in man["checks"])
        r=run([os.environ.get("CHECKER","/tmp/checker"),"-repo",m,"-summary",claimed],d)
        v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION ")]
        if v or r.returncode:
            bad+=1
            print("%-30s ALARM %s"%(id," ".join(sorted({l.split("property=")[1].split()[0] for l in v}))))
            for l in r.stdout.splitlines()[:int(os.environ.get("N","6"))]: print("    ",l[:400])
        else: print("%-30s quiet"%id)
        sys.stdout.flush()
    finally: shutil.rmtree(d)
exec(compile(open(sys.argv[1]).read(),sys.argv[1],"exec"))
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get("J","1"))) as ex: list(ex.map(lambda t: one(*t),todo))
sys.exit(1 if bad else 0)
