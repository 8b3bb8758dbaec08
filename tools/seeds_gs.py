from mkseed import mkseed
H='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <mpi.h>
#include "gslib.h"
static int bad=0;
static void finish(void){ int g; MPI_Allreduce(&bad,&g,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Finalize(); exit(g?1:0); }
'''
mkseed("g05-slot-reuse","G05","two operations outstanding, the first one waited for, then another one issued",
 "the table of outstanding operations is shortened when one finishes, so the next operation overwrites the entry of one that is still outstanding",
 [("gs.c","    nblkng_dict[handle] = 0;\n    nblkng_count--;\n","    nblkng_dict[handle] = 0;\n    nblkng_n = --nblkng_count;\n"),
  ("gs.c","  if(handle < nblkng_n) {\n    gs_aux_wait","  if(handle < nblkng_max) {\n    gs_aux_wait")],
 H+'''int main(int c,char**v){ struct comm cm; slong id[3]={1,2,3}; struct gs_data *g[3]; double u[3][3]; int h[3],i,j,np; buffer b[3]={null_buffer,null_buffer,null_buffer};
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); np=cm.np;
 for(i=0;i<3;++i){ g[i]=gs_setup(id,3,&cm,0,gs_pairwise,0); for(j=0;j<3;++j) u[i][j]=i+1; }
 igs(u[0],gs_double,gs_add,0,g[0],&b[0],&h[0]); igs(u[1],gs_double,gs_add,0,g[1],&b[1],&h[1]);
 gs_wait(h[0]); igs(u[2],gs_double,gs_add,0,g[2],&b[2],&h[2]); 
 if(h[2]==h[1]) bad=1; else { gs_wait(h[2]); gs_wait(h[1]); }
 if(!bad) for(i=0;i<3;++i) for(j=0;j<3;++j) if(u[i][j]!=(i+1)*np) bad=1;
 finish(); }''',2)
mkseed("g03-stage-size","G03","crystal-router handle with flagged ids on 3 or more processes, transposed operation moving more values than the forward one",
 "the work area of a crystal-router exchange is sized for the forward direction only, the two halves overlap in the transposed one",
 [("gs.c","crd->stage_buffer_size = size_max[1]>size_max[0]?size_max[1]:size_max[0];","crd->stage_buffer_size = size_max[0];")],
 H+'''int main(int c,char**v){ struct comm cm; slong id[8]; struct gs_data *g[2]; double u[2][8]; int i,np; buffer b=null_buffer; int m,t;
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); np=cm.np;
 for(i=0;i<8;++i) id[i]=(i%np)==(int)cm.id?i+1:-(i+1);
 g[0]=gs_setup(id,8,&cm,0,gs_pairwise,0); g[1]=gs_setup(id,8,&cm,0,gs_crystal_router,0);
 for(t=0;t<2;++t){ for(m=0;m<2;++m){ for(i=0;i<8;++i) u[m][i]=cm.id*10+i; gs(u[m],gs_double,gs_add,t,g[m],&b); }
  for(i=0;i<8;++i) if(u[0][i]!=u[1][i]) bad=1; }
 finish(); }''',5)
mkseed("g07-comm-kept","G07","handle freed that was set up with the all-reduce method",
 "freeing a handle leaves its duplicated communicator behind when more than one process uses it",
 [("gs.c","  comm_free(&gsh->comm);\n  free((uint*)gsh->map_local[0])","  if(gsh->r.buffer_size) comm_free(&gsh->comm);\n  free((uint*)gsh->map_local[0])")],
 H+'''static int live=0; int MPI_Comm_dup(MPI_Comm a,MPI_Comm*b){ ++live; return PMPI_Comm_dup(a,b); } int MPI_Comm_free(MPI_Comm*a){ --live; return PMPI_Comm_free(a); }
int main(int c,char**v){ struct comm cm; slong id[2]; struct gs_data *g; int l0,k;
 MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); l0=live; id[0]=2*cm.id+1; id[1]=2*cm.id+2;
 for(k=0;k<5;++k){ g=gs_setup(id,2,&cm,0,gs_pairwise,0); gs_free(g); }
 if(live!=l0) bad=1; finish(); }''',2)
