from mkseed import mkseed
H='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <float.h>
#include <math.h>
#include <unistd.h>
#include <mpi.h>
#include "gslib.h"
static int bad=0;
static void finish(void){ int g; MPI_Allreduce(&bad,&g,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Finalize(); exit(g?1:0); }
'''
mkseed("g01-high-bits","G01","ids of one process that agree in their low 32 bits, interleaved",
 "the local list is grouped by the low half of the ids only, so that entries with the same id end up in several groups",
 [("gs.c","  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, id,1, flag,0, buf);","  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, id,0, flag,0, buf);")],
 H+'''int main(int c,char**v){ struct comm cm; slong B=((slong)1)<<33, id[4]={7,7+B,7,7+B}; struct gs_data *g; double u[4]={1,10,2,20}; int i;
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); if(sizeof(slong)<8) finish();
 g=gs_setup(id,4,&cm,0,gs_pairwise,0); gs(u,gs_double,gs_add,0,g,0);
 for(i=0;i<4;++i) if(u[i]!=(i%2?30:3)*(double)cm.np) bad=1; gs_free(g); finish(); }''',2)
mkseed("g02-flag-first","G02","one process holding a flagged and, later, an unflagged entry of the same id shared with another process",
 "the entry that stands for its group may be a flagged one although the group has unflagged entries",
 [("gs.c","  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, id,1, flag,0, buf);","  sarray_sort(struct nonzero_id,nz->ptr,nz->n, id,1, buf);")],
 H+'''int main(int c,char**v){ struct comm cm; slong id[3]={-4,4,9}; struct gs_data *g; double u[3]={100,1,5}; 
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); id[2]=90+cm.id;
 g=gs_setup(id,3,&cm,0,gs_pairwise,0); gs(u,gs_double,gs_add,0,g,0);
 if(u[0]!=cm.np||u[1]!=cm.np||u[2]!=5) bad=1; gs_free(g); finish(); }''',2)
mkseed("g02-many-init","G02","several arrays at once, flagged entries whose group has no unflagged member on this process",
 "only the first two of the arrays have their flagged entries reset before the exchange",
 [("gs_local.c","#define WITH_DOMAIN(T) for(k=0;k<vn;++k) init_##T(p[k],map,op)","#define WITH_DOMAIN(T) for(k=0;k<vn;++k) init_##T(p[k&1],map,op)")],
 H+'''int main(int c,char**v){ struct comm cm; slong id[2]={3,-4}; struct gs_data *g; double u[3][2]; void*p[3]={u[0],u[1],u[2]}; int i;
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); if(cm.id) id[0]=-3,id[1]=4;
 for(i=0;i<3;++i) u[i][0]=i+1, u[i][1]=10*(i+1);
 g=gs_setup(id,2,&cm,0,gs_pairwise,0); gs_many(p,3,gs_double,gs_add,0,g,0);
 for(i=0;i<3;++i) if(u[i][0]!=i+1||u[i][1]!=(cm.np-1)*10*(i+1)) bad=1; gs_free(g); finish(); }''',2)
mkseed("g04-odd-vector","G04","vectors of an odd number of 4-byte entries with a repeated local id or a second process",
 "vector entries are copied in units of eight bytes, the last 4-byte component of an odd vector is left out",
 [("gs_local.c","      memcpy((char *)out+j*unit_size,t,unit_size);","      memcpy((char *)out+j*unit_size,t,unit_size/8*8);")],
 H+'''int main(int c,char**v){ struct comm cm; slong id[2]={5,6}; struct gs_data *g; sint u[2][3]; int i,k;
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); if(sizeof(sint)!=4) finish();
 for(i=0;i<2;++i) for(k=0;k<3;++k) u[i][k]=1+i+10*k;
 g=gs_setup(id,2,&cm,0,gs_pairwise,0); gs_vec(u,3,gs_sint,gs_add,0,g,0);
 for(i=0;i<2;++i) for(k=0;k<3;++k) if(u[i][k]!=(1+i+10*k)*(int)cm.np) bad=1; gs_free(g); finish(); }''',2)
mkseed("g06-owner-flagged","G06","an id unflagged on two processes and flagged on a third",
 "a process on which the id is flagged may be counted among the candidates, the unflagged entry is lost",
 [("gs.c","    for(     ; pe->i==i             ; ++pe) if(!(pe->flags&FLAGS_REMOTE)) ++gt;","    for(     ; pe->i==i             ; ++pe) if(!(pe->flags&FLAGS_REMOTE) || pe[1].i!=i) ++gt;")],
 H+'''int main(int c,char**v){ struct comm cm; slong id[12]; int i,n[12],t[12]; 
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); for(i=0;i<12;++i) id[i]=cm.id+1<cm.np?i+1:-(i+1);
 gs_unique(id,12,&cm); for(i=0;i<12;++i) n[i]=id[i]>0; MPI_Allreduce(n,t,12,MPI_INT,MPI_SUM,MPI_COMM_WORLD);
 for(i=0;i<12;++i) if(t[i]!=1) bad=1; finish(); }''',3)
mkseed("g07-map-kept","G07","a crystal-router handle on two or more processes, set up and freed many times",
 "freeing a crystal-router handle leaves the last scatter map of the transposed direction allocated",
 [("gs.c","  cr_free_stage_maps(data->stage[1],data->nstages);","  cr_free_stage_maps(data->stage[1],data->nstages?data->nstages-1:0);")],
 H+'''#include <malloc.h>
int main(int c,char**v){ struct comm cm; slong id[2000]; struct gs_data *g; int i,k; size_t m0=0,m1;
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); for(i=0;i<2000;++i) id[i]=i+1;
 for(k=0;k<220;++k){ g=gs_setup(id,2000,&cm,0,gs_crystal_router,0); gs_free(g); if(k==20) m0=mallinfo2().uordblks+mallinfo2().hblkhd; }
 m1=mallinfo2().uordblks+mallinfo2().hblkhd; if(m1>m0+500000) bad=1; finish(); }''',2)
mkseed("g08-op-range","G08","the Fortran interface called with operation number 5",
 "an operation number just beyond the documented ones is accepted instead of being rejected",
 [("gs.c","  if(op <1 || op >4)\n    fail(1,__FILE__,line,\"%s: op %d not in valid range 1-4\",func,op);","  if(op <1 || op-1 >4)\n    fail(1,__FILE__,line,\"%s: op %d not in valid range 1-4\",func,op);")],
 H+'''void fsetup(sint*,const slong*,const sint*,const int*,const sint*,const sint*) __asm__("fgslib_gs_setup_pick_");
void fop(const sint*,void*,const sint*,const sint*,const sint*) __asm__("fgslib_gs_op_");
static int expect=0; static void atend(void){ if(expect){ MPI_Finalize(); _exit(0); } }
int main(int c,char**v){ slong id[2]={1,2}; double u[2]={1,2}; sint h,n=2,np,m=1,dom=2,op=5,t=0; int fc; MPI_Init(&c,&v); fc=MPI_Comm_c2f(MPI_COMM_WORLD); MPI_Comm_size(MPI_COMM_WORLD,&np);
 fsetup(&h,id,&n,&fc,&np,&m); atexit(atend); expect=1; fop(&h,u,&dom,&op,&t); expect=0; bad=1; finish(); }''',1)
mkseed("g08-fields-size","G08","strided fields of 4-byte integers through the Fortran interface",
 "the distance between the fields is computed with the size of a double for all but the 64-bit integers",
 [("gs.c","  offset = *stride * gs_dom_size[fgs_dom[*dom]];","  offset = *stride * gs_dom_size[fgs_dom[*dom==2?1:*dom]];")],
 H+'''void fsetup(sint*,const slong*,const sint*,const int*,const sint*,const sint*) __asm__("fgslib_gs_setup_pick_");
void ff(const sint*,void*,const sint*,const sint*,const sint*,const sint*,const sint*) __asm__("fgslib_gs_op_fields_");
int main(int c,char**v){ slong id[2]={1,2}; sint u[12]; sint h,n=2,np,m=1,dom=2,op=1,t=0,st=3,nf=2; int fc,i; MPI_Init(&c,&v); fc=MPI_Comm_c2f(MPI_COMM_WORLD); MPI_Comm_size(MPI_COMM_WORLD,&np);
 fsetup(&h,id,&n,&fc,&np,&m); for(i=0;i<12;++i) u[i]=i+1; ff(&h,u,&st,&nf,&dom,&op,&t);
 for(i=0;i<12;++i) if(u[i]!=(i==0||i==1||i==3||i==4?np:1)*(i+1)) bad=1; finish(); }''',2)
H3=H.replace('#include "gslib.h"','#include <stddef.h>\n#include "c99.h"\n#include "name.h"\n#include "fail.h"\n#include "types.h"\n#include "mem.h"\n#include "gs_defs.h"\n#include "comm.h"\n#include "gs.h"')
mkseed("c03-large-reduce","C03","a large reduction in a build against an MPI without nonblocking collectives",
 "large blocking exchanges by the all-reduce method go through the nonblocking collective, which that build does not have",
 [("gs.c","  /* all reduce */\n  comm_allreduce(comm,dom,op, buf,gvn, ardbuf);","  /* all reduce */\n  if(gvn>256 && comm->np>2) {\n    comm_req req;\n    comm_iallreduce(&req,comm,dom,op,buf,gvn,ardbuf); comm_wait(&req,1);\n    memcpy(buf,ardbuf,gvn*unit_size);\n  } else\n  comm_allreduce(comm,dom,op, buf,gvn, ardbuf);")],
 H3+'''int main(int c,char**v){ struct comm cm; slong id[40]; struct gs_data *g; static double u[40*8]; int i;
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); for(i=0;i<40;++i) id[i]=i+1; for(i=0;i<320;++i) u[i]=i;
 g=gs_setup(id,40,&cm,0,gs_all_reduce,0); gs_vec(u,8,gs_double,gs_add,0,g,0);
 for(i=0;i<320;++i) if(u[i]!=(double)i*cm.np) bad=1; finish(); }''',3,
 src="-DGSLIB_USE_MPI -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ -DGSLIB_USE_GLOBAL_LONG_LONG -DGSLIB_UNDERSCORE -DGSLIB_USE_NAIVE_BLAS")
