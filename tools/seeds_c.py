from mkseed import mkseed
F='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <mpi.h>
#include "gslib.h"
#define NN 4
static int bad=0; static struct comm cm; static double Z[NN],W[NN];
static void finish(void){ int g; MPI_Allreduce(&bad,&g,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Finalize(); exit(g?1:0); }
static void start(int*c,char***v){ MPI_Init(c,v); comm_init(&cm,MPI_COMM_WORLD); lobatto_quad(Z,W,NN); }
/* the axis-parallel rectangle [x0,x0+hx] x [y0,y0+hy] */
static void rect(double*x,double*y,double x0,double y0,double hx,double hy){ int i,j; for(j=0;j<NN;++j) for(i=0;i<NN;++i) x[j*NN+i]=x0+hx*(Z[i]+1)/2, y[j*NN+i]=y0+hy*(Z[j]+1)/2; }
typedef struct { double x[2], r[2], d; uint code, proc, el; } P;
static void find(struct findpts_data_2*fd,P*p,uint n){ const double*xb[2]; unsigned xs[2]={sizeof(P),sizeof(P)}; xb[0]=p->x,xb[1]=p->x+1;
  findpts_2(&p->code,sizeof(P),&p->proc,sizeof(P),&p->el,sizeof(P),p->r,sizeof(P),&p->d,sizeof(P),xb,xs,n,fd); }
'''
N2='unsigned n[2]={NN,NN},m[2]={2*NN,2*NN};'
mkseed("f01-border-kept","F01","a point just outside an element of the asking process and inside an element of another one",
 "a point found only near the edge of a local element is no longer looked for on the other processes",
 [("findpts_imp.h","      if ((*code!=CODE_INTERNAL && fd->local.ims==0) ||","      if ((*code==CODE_NOT_FOUND && fd->local.ims==0) ||")],
 F+'''int main(int c,char**v){ double x[NN*NN],y[NN*NN]; const double*e[2]={x,y}; '''+N2+''' struct findpts_data_2*fd; P p={{0}}; start(&c,&v);
 rect(x,y,cm.id,0,1,1); fd=findpts_setup_2(&cm,e,n,1,m,0.1,NN*NN,NN*NN,8,1e-12);
 p.x[0]=cm.id+1<cm.np?cm.id+1.02:cm.id+0.5; p.x[1]=0.3; find(fd,&p,1);
 if(p.code!=0||p.d>1e-20) bad=1; findpts_free_2(fd); finish(); }''',3)
mkseed("f02-tie-remote","F02","an element chopped off: a point outside the mesh near two elements of different processes, the local one further away",
 "a process keeps the border result of its own element although another process has a closer one",
 [("findpts_imp.h","         || opt->dist2<*dist2) {\n        double *r = AT(double,r,index);","         || (opt->dist2<*dist2 && *AT(uint,proc,index)!=fd->cr.comm.id)) {\n        double *r = AT(double,r,index);")],
 F+'''int main(int c,char**v){ double x[NN*NN],y[NN*NN]; const double*e[2]={x,y}; '''+N2+''' struct findpts_data_2*fd; P p={{0}}; double d; start(&c,&v);
 rect(x,y,1.05*cm.id,0,1,1); fd=findpts_setup_2(&cm,e,n,1,m,0.2,NN*NN,NN*NN,8,1e-12);
 p.x[0]=1.04; p.x[1]=0.5; find(fd,&p,1); d=cm.np>1?0.01:0.04;
 if(p.code!=1||fabs(p.d-d*d)>1e-9) bad=1; findpts_free_2(fd); finish(); }''',2)
mkseed("f03-order-el","F03","points evaluated after being routed to another process that owns several elements, more of them than one batch holds",
 "points are no longer all grouped, and a batch that crosses into the next element is evaluated with the values of the first",
 [("findpts_local_imp.h","      for(i=0,q=p;i<npt_max && q<npt && *CAT(uint,el,q)==el;++q) ++i;","      for(i=0,q=p;i<npt_max && q<npt && (*CAT(uint,el,q)==el || (i && i+1==npt_max));++q) ++i;")],
 F+'''int main(int c,char**v){ double x[2*NN*NN],y[2*NN*NN],u[2*NN*NN],o[20]; const double*e[2]={x,y}; '''+N2+''' struct findpts_data_2*fd; P p[20]; int i; start(&c,&v); memset(p,0,sizeof p);
 rect(x,y,3*cm.id,0,1,1); rect(x+NN*NN,y+NN*NN,3*cm.id+1,0,1,1); fd=findpts_setup_2(&cm,e,n,2,m,0.01,2*NN*NN,NN*NN,13,1e-12);
 for(i=0;i<2*NN*NN;++i) u[i]=x[i]*x[i]+y[i]+(i<NN*NN?0:100);
 for(i=0;i<20;++i) p[i].x[0]=3*((cm.id+i)%cm.np)+(i%5<3?0.3:1.6), p[i].x[1]=(i+0.5)/20; find(fd,p,20);
 findpts_eval_2(o,sizeof(double),&p->code,sizeof(P),&p->proc,sizeof(P),&p->el,sizeof(P),p->r,sizeof(P),20,u,fd);
 for(i=0;i<20;++i){ double w=p[i].x[0]*p[i].x[0]+p[i].x[1]+(i%5<3?0:100); if(fabs(o[i]-w)>1e-8) bad=1; } findpts_free_2(fd); finish(); }''',2)
mkseed("f04-negative-distance","F04","a point offered by another session whose interpolated distance field is negative",
 "donors with a negative distance field are never accepted from other processes",
 [("findpts_imp.h","        asdisti    = -DBL_MAX; \n","        asdisti    = -DBL_MIN; \n")],
 F+'''int main(int c,char**v){ double x[NN*NN],y[NN*NN],f[NN*NN]; const double*e[2]={x,y}; '''+N2+''' struct findpts_data_2*fd; P p={{0}}; const double*xb[2]; unsigned xs[2]={sizeof(P),sizeof(P)}; uint sid,match=0; int i; start(&c,&v);
 sid=cm.id; rect(x,y,0,0,1,1); for(i=0;i<NN*NN;++i) f[i]=-5.-cm.id; fd=findptsms_setup_2(&cm,e,n,1,m,0.01,NN*NN,NN*NN,8,1e-12,&sid,f);
 p.x[0]=0.3,p.x[1]=0.6; xb[0]=p.x,xb[1]=p.x+1; p.proc=77; p.el=77; p.d=77;
 findptsms_2(&p.code,sizeof(P),&p.proc,sizeof(P),&p.el,sizeof(P),p.r,sizeof(P),&p.d,sizeof(P),xb,xs,&sid,sizeof(uint),&match,1,fd);
 if(p.code!=0||p.proc!=(cm.id==0?1:0)||p.el!=0||fabs(p.r[0]+0.4)>1e-9) bad=1; findptsms_free_2(fd); finish(); }''',3)
mkseed("f05-tolerance-flag","F05","a point a small distance beyond the edge of the mesh",
 "a search that ends on the edge of an element is reported as inside when the point is close to it",
 [("findpts_local_imp.h","            *code  = fpt[i].flags==(1u<<(2*D)) ? CODE_INTERNAL : CODE_BORDER;","            *code  = fpt[i].flags==(1u<<(2*D)) || fpt[i].dist2<fd->tol ? CODE_INTERNAL : CODE_BORDER;")],
 F+'''int main(int c,char**v){ double x[NN*NN],y[NN*NN]; const double*e[2]={x,y}; '''+N2+''' struct findpts_data_2*fd; P p[4]; int i; start(&c,&v); memset(p,0,sizeof p);
 rect(x,y,cm.id,0,1,1); fd=findpts_setup_2(&cm,e,n,1,m,0.1,NN*NN,NN*NN,8,1e-10);
 for(i=0;i<4;++i) p[i].x[0]=cm.id+0.2+0.2*i, p[i].x[1]=1+1e-6*(i+1); find(fd,p,4);
 for(i=0;i<4;++i) if(p[i].code==0) bad=1; findpts_free_2(fd); finish(); }''',1)
mkseed("f06-local-stride","F06","coordinates stored with different strides for the two directions, looked up through the Fortran interface in two dimensions",
 "the second coordinate is read with the stride of the first",
 [("findpts.c","    xv_base[0]=x_base, xv_base[1]=y_base;\n    xv_stride[0] = *x_stride*sizeof(double),\n    xv_stride[1] = *y_stride*sizeof(double);\n\n    GS_PREFIXED_NAME(findpts_2)(","    xv_base[0]=x_base, xv_base[1]=y_base;\n    xv_stride[0] = *x_stride*sizeof(double),\n    xv_stride[1] = *x_stride*sizeof(double);\n\n    GS_PREFIXED_NAME(findpts_2)(")],
 F+'''void fset(int*,const int*,const int*,const int*,const double*,const double*,const double*,const int*,const int*,const int*,const int*,const int*,const int*,const int*,const double*,const int*,const int*,const int*,const double*) __asm__("fgslib_findpts_setup_");
void ff(const int*,int*,const int*,int*,const int*,int*,const int*,double*,const int*,double*,const int*,const double*,const int*,const double*,const int*,const double*,const int*,const int*) __asm__("fgslib_findpts_");
int main(int c,char**v){ double x[NN*NN],y[NN*NN],X[6],Y[12],r[6],d[3],tol=0.01,nt=1e-12; int h,i,one=1,two=2,four=4,fc,np,nel=1,m=2*NN,nn=NN,hs=NN*NN,pm=8,code[3],proc[3],el[3],n3=3; start(&c,&v); fc=MPI_Comm_c2f(MPI_COMM_WORLD); np=cm.np;
 rect(x,y,cm.id,0,1,1); fset(&h,&fc,&np,&two,x,y,y,&nn,&nn,&nn,&nel,&m,&m,&m,&tol,&hs,&hs,&pm,&nt);
 for(i=0;i<6;++i) X[i]=9; for(i=0;i<12;++i) Y[i]=9; for(i=0;i<3;++i) X[2*i]=cm.id+0.2*(i+1), Y[4*i]=0.25*(i+1);
 ff(&h,code,&one,proc,&one,el,&one,r,&two,d,&one,X,&two,Y,&four,Y,&one,&n3);
 for(i=0;i<3;++i) if(code[i]!=0||proc[i]!=(int)cm.id||fabs((r[2*i+1]+1)/2-Y[4*i])>1e-9) bad=1; finish(); }''',2)
