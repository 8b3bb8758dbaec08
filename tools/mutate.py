"""mutation campaign: mutants are (id, properties, [(file, old, new)..]); each is applied to a scratch copy of /repo/src and the quick checks named are run on it"""
import sys, os, subprocess, shutil, json
V=os.environ.get("VDIR","/verif")   # a copy of the work to run the checks from
def run(M, only=(), tier="quick"):
    out=[]
    for id, props, edits in M:
        if only and id not in only: continue
        d="/tmp/mut/"+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d); shutil.copytree("/repo/src",d+"/src")
        ok=True
        for f,a,b in edits:
            p=d+"/src/"+f; s=open(p).read()
            if s.count(a)!=1: print(id,"EDIT",f,"matches",s.count(a)); ok=False; break
            open(p,"w").write(s.replace(a,b))
        if not ok: continue
        res=[]
        for q in props:
            r=subprocess.run(["python3",V+"/checks/run.py",q,tier],cwd=V,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,errors="replace",env=dict(os.environ,REPO=d,VERIF_SEED=os.environ.get("VERIF_SEED","1")))
            c={0:"missed",1:"CAUGHT"}.get(r.returncode,"ERR%d"%r.returncode)
            if r.returncode==1 and "VIOLATION" not in r.stdout: c="ERR1?"
            res.append("%s:%s"%(q,c))
            if c=="CAUGHT" and os.environ.get("FIRST"): break
            if c.startswith("ERR"): res.append(r.stdout[-400:])
        print(id,*res,flush=True)
        shutil.rmtree(d,ignore_errors=True)
if __name__=="__main__":
    import importlib.util
    sp=importlib.util.spec_from_file_location("m",sys.argv[1]); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); run(m.M,sys.argv[2:])
