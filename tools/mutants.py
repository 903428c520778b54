#!/usr/bin/env python3
"""mutants.py ANALYSES FILE...: applies small changes to files of a scratch copy
of /repo; of those that build and pass the tests, prints which properties
report them, or SURVIVES."""
import sys,os,subprocess,shutil,tempfile,json,random
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
ENV=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOWORK="off",GOTOOLCHAIN="local")
def run(cmd,cwd,t=600): 
    try: return subprocess.run(cmd,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd,99,"timeout")
props=sys.argv[1]; top=tempfile.mkdtemp(prefix="mut")
exe=os.path.join(top,"mutate"); assert not run(["go","build","-o",exe,"."],os.path.join(HERE,"mutate")).returncode
ms=[]
for f in sys.argv[2:]:
    ms+=[(f,json.loads(l)) for l in run([exe,os.path.join("/repo",f)],"/repo").stdout.splitlines()]
k=int(os.environ.get("SAMPLE","0"))
if k and k<len(ms): ms=random.Random(int(os.environ.get("SEED","1"))).sample(ms,k)
def one(a):
    f,m=a
    d=tempfile.mkdtemp(dir=top); r=os.path.join(d,"m")
    try:
        subprocess.run(["cp","-a","/repo",r],check=True)
        open(os.path.join(r,f),"w").write(m["text"])
        if run(["go","build","./..."],r).returncode: return "build"
        if run(["go","test","-vet=off","-count=1","-timeout=20s","./..."],r).returncode: return "tests"
        v=[]; rc=0
        for an in props.split(","):
            o=run([os.environ.get("CHECKER","/tmp/checker"),"-repo",r,"-run",an],d)
            rc|=o.returncode
            import re
            v+=sorted({l.split()[0] for l in o.stdout.splitlines() if re.match(r"[A-Z]\d\d .* [1-9]\d*/\d+$",l)})
        k="caught" if v else "SURVIVES" if rc==0 else "ERROR"
        if k!="caught" or os.environ.get("V"): print("%-9s %s:%s %s"%(k,f,m["what"]," ".join(v))); sys.stdout.flush()
        return k
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex: rs=list(ex.map(one,ms))
print({k:rs.count(k) for k in sorted(set(rs))})
shutil.rmtree(top)
