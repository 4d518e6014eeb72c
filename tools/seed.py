#!/usr/bin/env python3
# Plants the bugs described in tools/seeds/*.py into /verif/seeded, after
# confirming each in a scratch copy of /repo. Development only.
#   seed.py ID...        make and verify
#   seed.py -check ID... also run the check of the property on the changed copy
import sys, os, json, subprocess, shutil, glob
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
root=os.path.normpath(root)
specs={}
def seed(id, property, edits, needs, breaks, demo, files=None):
    specs[id]=dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo,files=files or {})
for f in sorted(glob.glob(os.path.join(root,"tools","seeds","*.py"))):
    exec(open(f).read())
DEMO='''#!/bin/bash
# Runs main.go as a package of the repository in the current directory.
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$dir" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
mkdir "$tmp/work" && cp "$dir"/* "$tmp/work/" && export REPO=$PWD && cd "$tmp/work" && TMPDIR=$tmp timeout 120 "$tmp/demo"
'''
def sh(cmd, cwd, quiet=True):
    p=subprocess.run(["bash","-c",cmd],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return p.returncode,p.stdout
def run(id, check, tier):
    s=specs[id]; wt="/tmp/seed/"+id
    shutil.rmtree(wt,ignore_errors=True); os.makedirs("/tmp/seed",exist_ok=True)
    sh("cp -a /repo "+wt,"/")
    try:
        for f,a,b in s["edits"]:
            p=os.path.join(wt,f); t=open(p).read()
            if t.count(a)!=1: print(id,"EDIT",f,"matches",t.count(a)); return False
            open(p,"w").write(t.replace(a,b))
        d=os.path.join(root,"seeded",id); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        for n,t in s["files"].items(): open(os.path.join(d,n),"w").write(t)
        open(os.path.join(d,"main.go"),"w").write(s["demo"]); open(os.path.join(d,"demo.sh"),"w").write(DEMO)
        os.chmod(os.path.join(d,"demo.sh"),0o755)
        json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(os.path.join(d,"meta.json"),"w"),indent=1)
        rc,diff=sh("git diff",wt); open(os.path.join(d,"patch.diff"),"w").write(diff)
        rc,out=sh(". /opt/vp/env.sh; gofmt -l $(git diff --name-only) | grep -v -e xsd -e wsdlgen; go build ./...",wt)
        if rc or out.strip(): print(id,"BUILD",out); return False
        rc,out=sh(". /opt/vp/env.sh; work=$(mktemp -d); mkdir $work/tmp; export TMPDIR=$work/tmp; go test -json -vet=off -count=1 $(go list -e ./... | grep -v chemspell$) > $work/test.log; python3 /opt/vp/results.py $work/o.json gojson:$work/test.log; cat $work/o.json; rm -rf $work",wt)
        try: passed=set(json.loads(out[out.index("{"):])["passed"])
        except Exception as e: print(id,"TESTS",e,out[:500]); return False
        missing=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])-passed
        if missing: print(id,"TESTS FAIL",missing); return False
        rc,out=sh(os.path.join(d,"demo.sh"),"/repo")
        if rc: print(id,"DEMO fails on the unchanged tree",rc,out); return False
        rc,out=sh(os.path.join(d,"demo.sh"),wt)
        if not rc: print(id,"DEMO passes with the change"); return False
        print(id,"ok, demo says:",out.strip()[:200].replace("\n"," | "))
        if check:
            rc,out=sh("VERIF_TIER=%s VERIF_REPO=%s ./check.sh %s"%(tier,wt,s["property"]),root)
            v=[l for l in out.split("\n") if l.startswith("VIOLATION")]
            print("   ","CAUGHT" if rc==1 and v else "MISSED","rc",rc,"\n      ".join(out[out.index("VIOLATION"):].split("\n")[:6]) if v else out[-600:])
        return True
    finally:
        shutil.rmtree(wt,ignore_errors=True)
args=sys.argv[1:]; check=False; tier="quick"
while args and args[0].startswith("-"):
    if args[0]=="-check": check=True
    if args[0]=="-thorough": check=True; tier="thorough"
    args=args[1:]
for id in args or sorted(specs): run(id,check,tier)
