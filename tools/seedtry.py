#!/usr/bin/env python3
"""seedtry.py ID [ID..] : confirm a planted bug in a scratch copy (applies, builds, stable tests, demo both ways) and run its check on it"""
import sys, os, subprocess, shutil, json, re
V="/verif/seeded"
def sh(c, cwd=None, env=None, t=900):
    try: r=subprocess.run(c,shell=True,cwd=cwd,env=env,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,errors="replace"); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 99,"timeout"
base="/tmp/sd/base"
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def prep(d):
    for f in ("build.sh","test.sh","run_tests.py","results.py"):
        s=open("/opt/vp/"+f).read().replace("/opt/vp/",d+"-vp/").replace("/repo",d); os.makedirs(d+"-vp",exist_ok=True); open(d+"-vp/"+f,"w").write(s)
def quick(): return "--notests" in sys.argv
def one(i):
    d="/tmp/sd/%s"%i; shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/sd",exist_ok=True)
    sh("cp -a /repo %s"%d); prep(d)
    env=dict(os.environ)
    rc,o=sh("bash %s-vp/build.sh"%d,cwd=d); assert rc==0,o[-500:]
    dd="/tmp/sd/demo-%s"%i; shutil.rmtree(dd,ignore_errors=True); shutil.copytree("%s/%s"%(V,i),dd)
    rc0,o0=sh("bash %s/demo.sh"%dd,cwd=d,t=300)
    rc,o=sh("git apply %s/%s/patch.diff"%(V,i),cwd=d)
    if rc: print(i,"PATCH DOES NOT APPLY",o); return
    rc,o=sh("bash %s-vp/build.sh"%d,cwd=d)
    if rc: print(i,"BUILD FAILS",o[-500:]); return
    rc1,o1=sh("bash %s/demo.sh"%dd,cwd=d,t=300)
    tst="skipped"
    if not quick():
        sh("bash %s-vp/test.sh %s-vp/out.json"%(d,d),cwd=d,t=1500); r=json.load(open(d+"-vp/out.json")); miss=stable-set(r["passed"]); tst="ok" if not miss else "FAIL %s"%sorted(miss)[:4]
    p=json.load(open("%s/%s/meta.json"%(V,i)))["property"]
    extra=[a[2:] for a in sys.argv[1:] if a.startswith("p=")]
    caught=[]
    for q in ([] if "--nocheck" in sys.argv else extra or [p]):
        rc,o=sh("python3 /verif/checks/run.py %s quick"%q,cwd="/verif",env=dict(env,REPO=d,VERIF_SEED="1")); caught.append("%s:%d%s"%(q,rc,"" if rc!=1 or "VIOLATION" in o else "?"))
        if rc not in (0,1): print(o[-600:])
    print(i,"demo clean=%d patched=%d"%(rc0,rc1),"tests",tst,"check",caught, flush=True)
    if rc0: print("   clean demo:",o0[-400:])
    if rc1==0: print("   patched demo:",o1[-400:])
    shutil.rmtree(d,ignore_errors=True); shutil.rmtree(d+"-vp",ignore_errors=True); shutil.rmtree(dd,ignore_errors=True)
ids=[a for a in sys.argv[1:] if not a.startswith("-") and "=" not in a] or sorted(os.listdir(V))
for i in ids: one(i)
