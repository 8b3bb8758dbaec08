"""helper: mkseed(id, property, needs, breaks, edits=[(file, old, new)], demo_c, np) writes /verif/seeded/<id>"""
import os, subprocess, json, shutil
DEMO='''#!/bin/bash
# run in the repository after its build: compiles the program beside this file against the built library
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
B=$PWD/_build/%(cfg)s/build
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none TMPDIR="$W"
mpicc.openmpi -std=gnu99 -g -O1 -w -I"$B/include" -I"$B/include/gslib" "$D/demo.c" "$B/lib/libgs.a" %(lib)s -lm -o "$W/demo" || exit 2
timeout -k 5 120 mpiexec.openmpi -np %(np)d "$W/demo"
'''
# variant: the program is compiled together with the library's sources under other configuration flags
SRCDEMO='''#!/bin/bash
# run in the repository: compiles the program beside this file together with the library's sources, configured with %(flags)s
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none TMPDIR="$W"
S=$(ls $PWD/src/*.c | grep -v gen_poly_imp)
%(cc)s -std=gnu99 -g -O1 -w %(flags)s -I"$PWD/src" "$D/demo.c" $S -lm -o "$W/demo" || exit 2
%(run)s
'''
def mkseed(id, prop, needs, breaks, edits, demo, np=2, cfg="nbc", lib="", src=None):
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    w="/tmp/mk/"+id; shutil.rmtree(w,ignore_errors=True); os.makedirs("/tmp/mk",exist_ok=True)
    subprocess.run(["git","-C","/repo","worktree","prune"]); subprocess.run(["git","clone","-q","/repo",w],check=True)
    for f,a,b in edits:
        p=w+"/src/"+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a)); open(p,"w").write(s.replace(a,b))
    df=subprocess.run(["git","-C",w,"diff"],text=True,stdout=subprocess.PIPE).stdout; assert df
    open(d+"/patch.diff","w").write(df)
    if src is None: open(d+"/demo.sh","w").write(DEMO%dict(np=np,cfg=cfg,lib=lib))
    else:
        mpi="-DGSLIB_USE_MPI" in src
        open(d+"/demo.sh","w").write(SRCDEMO%dict(flags=src,cc="mpicc.openmpi" if mpi else "gcc",run=("timeout -k 5 120 mpiexec.openmpi -np %d \"$W/demo\""%np) if mpi else "timeout -k 5 120 \"$W/demo\""))
    open(d+"/demo.c","w").write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(w)
