#!/usr/bin/env python3
# Small changes to the source, one at a time, in copies of /repo: which of them
# do neither the tests nor the checks notice? Development only.
#   mutate.py PACKAGE EVERY FIRST [SECONDS]   every EVERYth change from FIRST on
#   mutate.py -again FILE                     survivors once more, as a quick check would
# Survivors are written to /tmp/mut/PACKAGE.jsonl.
import sys, os, json, subprocess, shutil, threading, queue, glob, time
root=os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
CHECKS={"xmltree":"C04 C01 C02 C03 C05 C06 C07","xsd":"C14 C12 C11 C13 C15 C16 C10","xsdgen":"C21 C20 C22 C24 C25 C23",
 "wsdl":"C30","wsdlgen":"C31 C32 C25","internal/gen":"C41 C20","internal/dependency":"C40","internal/commandline":"C42 C25"}
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
lock=threading.Lock()
counts={}
def sh(cmd,cwd,env={},timeout=1200):
    try:
        p=subprocess.run(["bash","-c",cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=timeout,env=dict(os.environ,**env))
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        return 124,"timeout"
def one(m,wt,env):
    f=os.path.join(wt,m["File"]); src=open(f,"rb").read()
    try:
        open(f,"wb").write(src[:m["From"]]+m["New"].encode()+src[m["To"]:])
        if sh(". /opt/vp/env.sh; GOFLAGS= go build ./...",wt)[0]: return "no build"
        rc,out=sh(". /opt/vp/env.sh; w=$(mktemp -d); mkdir $w/tmp; export TMPDIR=$w/tmp; timeout 60 go test -json -vet=off -count=1 $(go list -e ./... | grep -v chemspell$) > $w/test.log; python3 /opt/vp/results.py $w/o.json gojson:$w/test.log; cat $w/o.json; rm -rf $w",wt)
        try: passed=set(json.loads(out[out.index("{"):])["passed"])
        except Exception: return "tests"
        if stable-passed: return "tests"
        for c in CHECKS[os.path.dirname(m["File"])].split():
            rc,out=sh("./check.sh "+c,root,dict(env,VERIF_REPO=wt,VERIF_TIER="quick"))
            if rc==1: return "caught "+c
            if rc: return "error %s %d %s"%(c,rc,out[-300:])
        return "survived"
    finally: open(f,"wb").write(src)
def main():
    if sys.argv[1]=="-again":
        muts=[json.loads(l) for l in open(sys.argv[2])]; n=1; env={}; name=os.path.basename(sys.argv[2])+".again"
    else:
        p,every,first=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
        env={"MC_WORKERS":"1","VERIF_BUDGET":sys.argv[4] if len(sys.argv)>4 else "40"}
        files=[f for f in sorted(os.path.relpath(f,"/repo") for f in glob.glob("/repo/%s/*.go"%p)) if not f.endswith("_test.go")]
        out=subprocess.run(["/tmp/mutate"]+files,cwd="/repo",stdout=subprocess.PIPE,text=True).stdout
        muts=[json.loads(l) for l in out.splitlines()][first::every]; n=8; name=p.replace("/","_")+".jsonl"
    os.makedirs("/tmp/mut",exist_ok=True)
    q=queue.Queue()
    for m in muts: q.put(m)
    def work(i):
        wt="/tmp/mut/w%s-%d"%(name,i); shutil.rmtree(wt,ignore_errors=True); sh("cp -a /repo "+wt,"/")
        while True:
            try: m=q.get_nowait()
            except queue.Empty: break
            r=one(m,wt,env)
            with lock:
                counts[r.split()[0]]=counts.get(r.split()[0],0)+1
                print(r,m["File"],m["Line"],m["Func"],m["Kind"],repr(m["New"][:60]),counts if r!="no build" else "",flush=True)
                if r.split()[0] in("survived","error"): open("/tmp/mut/"+name,"a").write(json.dumps(m)+"\n")
        shutil.rmtree(wt,ignore_errors=True)
    ts=[threading.Thread(target=work,args=(i,)) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(counts)
main()
