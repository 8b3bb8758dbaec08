#!/bin/bash
# build.sh OUTDIR [flags instead of -DGSLIB_USE_NAIVE_BLAS]; CFG: configuration macros; LIBS: more libraries: simulator and rank library from /repo/src's current tree
set -e
H=$(cd "$(dirname "$0")" && pwd); O=$1; shift; REPO=${REPO:-/repo}
mkdir -p "$O/inc" "$O/o"; : > "$O/inc/config.h"
FL="-O1 -g -fPIC -w -std=gnu99 -DGSLIB_UNDERSCORE -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ ${CFG:--DGSLIB_USE_MPI -DGSLIB_USE_GLOBAL_LONG_LONG -DGSLIB_USE_NBC} ${*:--DGSLIB_USE_NAIVE_BLAS}"
mkdir -p "$O/hm"; cp "$H/mpi.h" "$O/hm/"; cp "$H/sim.h" "$O/hm/"
( for f in $REPO/src/*.c; do b=$(basename $f .c); [ $b = gen_poly_imp ] && continue; echo "gcc $FL -U_FORTIFY_SOURCE -Dmemcpy=vf_memcpy -I$O/hm -I$O/inc -I$REPO/src -c $f -o $O/o/l_$b.o"; done
  for f in $H/drv*.c; do b=$(basename $f .c); echo "gcc $FL -I$O/hm -I$O/inc -I$REPO/src -I$H -c $f -o $O/o/d_$b.o"; done
  echo "gcc -O2 -g -w -I$O/hm $H/sim.c -rdynamic -ldl -o $O/sim" ) | xargs -P 8 -I{} sh -c '{}'
# without MPI: what the library still needs from elsewhere (nothing, if it is complete in itself)
case "${CFG:--DGSLIB_USE_MPI}" in *-DGSLIB_USE_MPI*) N= ;; *) echo 'void *vf_memcpy(void *a,const void *b,unsigned long n){return a;}' > "$O/stub.c"; N=$(gcc -shared -fPIC -Wl,-z,defs -o "$O/alone.so" "$O/stub.c" "$O"/o/l_*.o $LIBS -lm 2>&1 | sed -n "s/.*undefined reference to [\`']\(.*\)'.*/\1/p" | sort -u | sed 's/.*/"&",/' | tr -d '\n') ;; esac
echo "const char *vf_needs[]={${N}0};" > "$O/needs.c"; gcc -fPIC -c "$O/needs.c" -o "$O/o/d_needs.o"
gcc -shared -Wl,-Bsymbolic -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=exit -o "$O/rank.so" "$O"/o/*.o $LIBS -lm
