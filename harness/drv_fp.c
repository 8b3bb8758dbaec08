/* point location: distributed finder (C and Fortran), multi-session finder, local finder, evaluation.
   Elements are boxes of a logical integer lattice carried to space by one polynomial map; everything the script
   gives is an exact integer. */
#include "drv.h"
#include "obbox.h"
#include "findpts_el.h"
#include "findpts_local.h"
void em_fx(double v); void em_fxs(const char*,const double*,int,int);
#define C_ const
typedef C_ sint *ci; typedef C_ double *cd; typedef C_ uint *cu;
void fgslib_findpts_setup_(sint*,C_ MPI_Fint*,ci,ci,cd,cd,cd,ci,ci,ci,ci,ci,ci,ci,cd,ci,ci,ci,cd);
void fgslib_findptsms_setup_(sint*,C_ MPI_Fint*,ci,ci,cd,cd,cd,ci,ci,ci,ci,ci,ci,ci,cd,ci,ci,ci,cd,cu,cd);
void fgslib_findpts_free_(ci); void fgslib_findptsms_free_(ci);
void fgslib_findpts_(ci,sint*,ci,sint*,ci,sint*,ci,double*,ci,double*,ci,cd,ci,cd,ci,cd,ci,ci);
void fgslib_findptsms_(ci,sint*,ci,sint*,ci,sint*,ci,double*,ci,double*,ci,cd,ci,cd,ci,cd,ci,cu,cu,cu,ci);
#define EVP ci,double*,ci,ci,ci,ci,ci,ci,ci,cd,ci,ci,cd
void fgslib_findpts_eval_(EVP); void fgslib_findptsms_eval_(EVP);
#define EVL ci,double*,ci,ci,ci,cd,ci,ci,cd
void fgslib_findpts_eval_local_(EVL); void fgslib_findptsms_eval_local_(EVL);

struct term { int c,a[3]; };
static double ipw(double x,int k){ double r=1; while(k-->0) r*=x; return r; }
static double pev(const struct term *t,int nt,const double *x,int sh){ double s=0; int i; for(i=0;i<nt;++i) s+=t[i].c*ipw(x[0],t[i].a[0])*ipw(x[1],t[i].a[1])*ipw(x[2],t[i].a[2]); return ldexp(s,-sh); }
static int rdt(struct term *t){ int i,d,nt=ti(); for(i=0;i<nt;++i){ t[i].c=ti(); for(d=0;d<3;++d) t[i].a[d]=ti(); } return nt; }
static void emt(const struct term *t,int nt){ int i; EM("["); for(i=0;i<nt;++i) EM("%s[%d,%d,%d,%d]",i?",":"",t[i].c,t[i].a[0],t[i].a[1],t[i].a[2]); EM("]"); }
struct fel { int lo[3],hi[3],p[3],s[3]; };
#define NF 16
struct finder { int used,dim,how,ims,nel,sh,q; unsigned n[3],m[3]; size_t ntot; struct term phi[3][12]; int nphi[3]; struct fel *el; double *x[3],*df,*z[3]; uint nsid; struct comm *c; int ck;
  void *fd; sint fh; struct findpts_local_data_2 l2; struct findpts_local_data_3 l3; buffer lb; };
static struct finder F[NF];
struct res { int used,npt,cs,ps,es,rs,ds; uint *code,*proc,*el; double *r,*d2; };
static struct res R[NF];
static void nodal(struct finder *f,const struct term *t,int nt,int sh,double eo,double *u){ int e,i,j,k,d; size_t o=0; unsigned n2= f->dim==3?f->n[2]:1;
  for(e=0;e<f->nel;++e) for(k=0;k<(int)n2;++k) for(j=0;j<(int)f->n[1];++j) for(i=0;i<(int)f->n[0];++i){ double r[3]={f->z[0][i],f->z[1][j],f->dim==3?f->z[2][k]:0},xi[3]={0,0,0}; struct fel *g=&f->el[e];
    for(d=0;d<f->dim;++d) xi[g->p[d]]=(g->lo[g->p[d]]+g->hi[g->p[d]])/2.+g->s[d]*r[d]*(g->hi[g->p[d]]-g->lo[g->p[d]])/2.;
    u[o++]=pev(t,nt,xi,sh)+eo*(e+1); } }
/* fm K comm how dim n.. m.. ts lhs ghs nptmax sh phi.. ims nsid dterms nel {lo.. hi.. p.. s..} */
static void fm(void){ int K=ti(),cs=ti(),d,e,nd; struct finder *f=&F[K]; struct term dt[12]; int ts,lhs,ghs,npm; double tol,ntol=1024*DBL_EPSILON; const double *elx[3];
  memset(f,0,sizeof *f); f->used=1; f->how=*tok(); f->dim=ti(); for(d=0;d<f->dim;++d) f->n[d]=ti(); for(d=0;d<f->dim;++d) f->m[d]=ti(); ts=ti(); lhs=ti(); ghs=ti(); npm=ti(); f->sh=ti();
  for(d=0;d<f->dim;++d) f->nphi[d]=rdt(f->phi[d]); f->ims=ti(); f->nsid=ti(); nd=rdt(dt); f->nel=ti(); f->el=dmalloc(sizeof(struct fel)*(f->nel+1));
  for(e=0;e<f->nel;++e){ struct fel *g=&f->el[e]; memset(g,0,sizeof *g); for(d=0;d<f->dim;++d) g->lo[d]=ti(); for(d=0;d<f->dim;++d) g->hi[d]=ti(); for(d=0;d<f->dim;++d) g->p[d]=ti(); for(d=0;d<f->dim;++d) g->s[d]=ti(); }
  f->ntot=1; for(d=0;d<f->dim;++d) f->ntot*=f->n[d], f->z[d]=dmalloc(8*f->n[d]), lobatto_nodes(f->z[d],f->n[d]);
  for(d=0;d<f->dim;++d) f->x[d]=dmalloc(8*f->ntot*f->nel), nodal(f,f->phi[d],f->nphi[d],f->sh,0,f->x[d]), elx[d]=f->x[d]; if(f->dim<3) elx[2]=0;
  f->df=0; if(f->ims) f->df=dmalloc(8*f->ntot*f->nel), nodal(f,dt,nd,0,0,f->df);
  f->c=&DC[cs].c; f->ck=DC[cs].key; tol=ts<0?0:ldexp(1,-ts);
  EM("{\"e\":\"fm\",\"r\":%d,\"k\":%d,\"c\":%d,\"id\":%d,\"how\":\"%c\",\"dim\":%d,\"ts\":%d,\"sh\":%d,\"phi\":[",ME,K,f->ck,(int)f->c->id,f->how,f->dim,ts,f->sh); for(d=0;d<f->dim;++d){ if(d) EM(","); emt(f->phi[d],f->nphi[d]); }
  EM("],\"ims\":%d,\"sid\":%d,\"df\":",f->ims,(int)f->nsid); emt(dt,nd); EM(",\"els\":["); for(e=0;e<f->nel;++e){ struct fel *g=&f->el[e]; EM("%s{\"lo\":[%d,%d,%d],\"hi\":[%d,%d,%d],\"p\":[%d,%d,%d],\"s\":[%d,%d,%d]}",e?",":"",g->lo[0],g->lo[1],g->lo[2],g->hi[0],g->hi[1],g->hi[2],g->p[0]+1,g->p[1]+1,g->p[2]+1,g->s[0],g->s[1],g->s[2]); } EM("]}\n");
  if(f->how=='c'){ if(f->dim==2) f->fd= f->ims?(void*)findptsms_setup_2(f->c,elx,f->n,f->nel,f->m,tol,lhs,ghs,npm,ntol,&f->nsid,f->df):(void*)findpts_setup_2(f->c,elx,f->n,f->nel,f->m,tol,lhs,ghs,npm,ntol);
    else f->fd= f->ims?(void*)findptsms_setup_3(f->c,elx,f->n,f->nel,f->m,tol,lhs,ghs,npm,ntol,&f->nsid,f->df):(void*)findpts_setup_3(f->c,elx,f->n,f->nel,f->m,tol,lhs,ghs,npm,ntol); }
  else if(f->how=='l'){ buffer_init(&f->lb,16); if(f->ims){ if(f->dim==2) findptsms_local_setup_2(&f->l2,elx,&f->nsid,f->df,f->n,f->nel,f->m,tol,lhs,npm,ntol,1); else findptsms_local_setup_3(&f->l3,elx,&f->nsid,f->df,f->n,f->nel,f->m,tol,lhs,npm,ntol,1); }
    else if(f->dim==2) findpts_local_setup_2(&f->l2,elx,f->n,f->nel,f->m,tol,lhs,npm,ntol); else findpts_local_setup_3(&f->l3,elx,f->n,f->nel,f->m,tol,lhs,npm,ntol); }
  else { MPI_Fint fc=MPI_Comm_c2f(f->c->c); sint np=f->c->np,dim=f->dim,n[3],m[3],nel=f->nel,l=lhs,g=ghs,nm=npm; for(d=0;d<3;++d) n[d]=d<dim?f->n[d]:-99, m[d]=d<dim?f->m[d]:-99;
    if(f->ims) fgslib_findptsms_setup_(&f->fh,&fc,&np,&dim,elx[0],elx[1],elx[2],n,n+1,n+2,&nel,m,m+1,m+2,&tol,&l,&g,&nm,&ntol,&f->nsid,f->df);
    else fgslib_findpts_setup_(&f->fh,&fc,&np,&dim,elx[0],elx[1],elx[2],n,n+1,n+2,&nel,m,m+1,m+2,&tol,&l,&g,&nm,&ntol); }
  EM("{\"e\":\"fmE\",\"r\":%d,\"k\":%d,\"hv\":%d}\n",ME,K,f->how=='f'?(int)f->fh:-1); }
#define PAT 0x5A
static void rfree(struct res *R){ if(!R->used) return; dfree(R->code); dfree(R->proc); dfree(R->el); dfree(R->r); dfree(R->d2); R->used=0; }
static int gapi(const uint *a,int n,int st){ int i,k; const unsigned char *b=(const unsigned char*)a; for(i=0;i<n;++i) for(k=1;k<st;++k) if(b[IS*(i*st+k)]!=PAT) return 0; return 1; }
static int gapd(const double *a,int n,int w,int st){ int i,k; const unsigned char *b=(const unsigned char*)a; for(i=0;i<n;++i) for(k=w;k<st;++k) if(b[8*(i*st+k)]!=PAT) return 0; return 1; }
static void *pat(size_t n){ void *p=dmalloc(n); memset(p,PAT,n); return p; }
/* fq K slot npt q style match {p.. [sess]} : style chooses strides */
static void fq(void){ int K=ti(),S=ti(),npt=ti(),q=ti(),st=ti(); uint match=ti(); struct finder *f=&F[K]; struct res *o=&R[S]; int i,d,D=f->dim,xs[3],ss; double *x[3],*xc[3]; const double *xb[3]; unsigned xst[3]; uint *se; int *p=dmalloc(sizeof(int)*3*(npt+1)); int il=(st>>6)&1, gap, dis=1+((st>>1)&1), ess=1+((st>>3)&1)*2, lm; double *di; uint *es;
  rfree(o); o->used=1; o->npt=npt; o->cs=1+(st&1)*2; o->ps=1+((st>>1)&1); o->es=1+((st>>2)&1)*3; o->rs=D+((st>>3)&1)*2; o->ds=1+((st>>4)&1)*4; ss=1+((st>>5)&1);
  o->code=pat(IS*(npt*o->cs+1)); o->proc=pat(IS*(npt*o->ps+1)); o->el=pat(IS*(npt*o->es+1)); o->r=pat(8*(npt*o->rs+1)); o->d2=pat(8*(npt*o->ds+1)); di=pat(8*(npt*dis+1)); es=pat(IS*(npt*ess+1)); se=pat(IS*(npt*ss+1));
  if(il){ x[0]=dmalloc(8*(npt*(D+1)+1)); for(d=1;d<D;++d) x[d]=x[0]+d; for(d=0;d<D;++d) xs[d]=D+1; } else for(d=0;d<D;++d) xs[d]=1+((st>>(7+d))&1), x[d]=dmalloc(8*(npt*xs[d]+1));
  for(d=0;d<D;++d) xc[d]=dmalloc(8*(npt+1));
  for(i=0;i<npt;++i){ double xi[3]={0,0,0}; p[3*i+2]=0; for(d=0;d<D;++d) p[3*i+d]=ti(), xi[d]=ldexp(p[3*i+d],-q); if(f->ims) se[i*ss]=ti(); for(d=0;d<D;++d) xc[d][i]=x[d][i*xs[d]]=pev(f->phi[d],f->nphi[d],xi,f->sh); }
  for(d=0;d<3;++d) xb[d]=d<D?x[d]:0, xst[d]=d<D?xs[d]*8:0;
  EM("{\"e\":\"fqB\",\"r\":%d,\"k\":%d,\"n\":%d}\n",ME,K,npt);
  lm= f->how=='l'&&f->ims;
#define LMS o->code,o->cs*IS,o->el,o->es*IS,o->r,o->rs*8,o->d2,o->ds*8,xb,xst,se,ss*IS,di,dis*8,es,ess*IS,&match,npt
  if(lm){ if(D==2) findptsms_local_2(LMS,&f->l2,&f->lb); else findptsms_local_3(LMS,&f->l3,&f->lb); for(i=0;i<npt;++i) o->proc[i*o->ps]=f->c->id; }
  else if(f->how=='l'){ if(D==2) findpts_local_2(o->code,o->cs*IS,o->el,o->es*IS,o->r,o->rs*8,o->d2,o->ds*8,xb,xst,npt,&f->l2,&f->lb); else findpts_local_3(o->code,o->cs*IS,o->el,o->es*IS,o->r,o->rs*8,o->d2,o->ds*8,xb,xst,npt,&f->l3,&f->lb); for(i=0;i<npt;++i) o->proc[i*o->ps]=f->c->id; }
  else if(f->how=='c'){
#define ARGS o->code,o->cs*IS,o->proc,o->ps*IS,o->el,o->es*IS,o->r,o->rs*8,o->d2,o->ds*8,xb,xst
    if(D==2){ if(f->ims) findptsms_2(ARGS,se,ss*IS,&match,npt,f->fd); else findpts_2(ARGS,npt,f->fd); } else { if(f->ims) findptsms_3(ARGS,se,ss*IS,&match,npt,f->fd); else findpts_3(ARGS,npt,f->fd); } }
  else { sint cs=o->cs,ps=o->ps,es=o->es,rs=o->rs,ds=o->ds,n=npt; uint us=ss; sint X[3]={xs[0],xs[1],xs[2]}; if(D==2) X[2]=-5;
#define FARG &f->fh,(sint*)o->code,&cs,(sint*)o->proc,&ps,(sint*)o->el,&es,o->r,&rs,o->d2,&ds,xb[0],X,xb[1],X+1,xb[2],X+2
    if(f->ims) fgslib_findptsms_(FARG,se,&us,&match,&n); else fgslib_findpts_(FARG,&n); }
  gap=gapi(o->code,npt,o->cs)&&gapi(o->proc,npt,o->ps)&&gapi(o->el,npt,o->es)&&gapd(o->r,npt,D,o->rs)&&gapd(o->d2,npt,1,o->ds)&&gapd(di,npt,1,dis)&&gapi(es,npt,ess); for(i=0;i<npt;++i) for(d=0;d<D;++d) if(x[d][i*xs[d]]!=xc[d][i]) gap=0;
  EM("{\"e\":\"fqE\",\"r\":%d,\"k\":%d,\"q\":%d,\"gap\":%d,\"mt\":%d,\"a\":[",ME,K,q,gap,(int)match);
  for(i=0;i<npt;++i){ uint c=o->code[i*o->cs]; EM("%s{\"p\":[%d,%d,%d],\"s\":%d,\"c\":%d,\"pr\":%d",i?",":"",p[3*i],p[3*i+1],p[3*i+2],f->ims?(int)se[i*ss]:0,(int)c,(int)o->proc[i*o->ps]); if(c!=2){ EM(",\"el\":%d",(int)o->el[i*o->es]); em_fxs("r",o->r+i*o->rs,D,1); EM(",\"d\":"); em_fx(o->d2[i*o->ds]); if(lm){ EM(",\"di\":"); em_fx(di[i*dis]); EM(",\"si\":%d",(int)es[i*ess]); } } EM("}"); }
  EM("]}\n"); if(il) dfree(x[0]); else for(d=0;d<D;++d) dfree(x[d]); for(d=0;d<D;++d) dfree(xc[d]); dfree(se); dfree(p); dfree(di); dfree(es); }
/* fe K sh fterms eo style slot cnt {index}  |  -1 cnt {code proc el r../64} ; fl: the same for the purely local evaluation */
static void fe(int local){ int K=ti(),sh=ti(),nt,eo,st,S,cnt,i,d; struct term t[16]; struct finder *f=&F[K]; double *u,*out; struct res L,*o=&L; int os,gap; nt=rdt(t); eo=ti(); st=ti(); S=ti(); cnt=ti();
  L.used=1; L.npt=cnt; L.cs=1+(st&1); L.ps=1+((st>>1)&1)*2; L.es=1+((st>>2)&1); L.rs=f->dim+((st>>3)&1); os=1+((st>>4)&1)*2; L.code=pat(IS*(cnt*L.cs+1)); L.proc=pat(IS*(cnt*L.ps+1)); L.el=pat(IS*(cnt*L.es+1)); L.r=pat(8*(cnt*L.rs+1)); L.d2=pat(8); out=pat(8*(cnt*os+1)); for(i=0;i<cnt;++i) out[i*os]=-12345;
  for(i=0;i<cnt;++i){ if(S>=0){ struct res *a=&R[S]; int j=ti(); L.code[i*L.cs]=a->code[j*a->cs]; L.proc[i*L.ps]=a->proc[j*a->ps]; L.el[i*L.es]=a->el[j*a->es]; for(d=0;d<f->dim;++d) L.r[i*L.rs+d]=a->r[j*a->rs+d]; } else { L.code[i*L.cs]=ti(); L.proc[i*L.ps]=ti(); L.el[i*L.es]=ti(); for(d=0;d<f->dim;++d) L.r[i*L.rs+d]=ti()/64.; } }
  if(local){ /* only the points of my own elements, as found */ int j=0; for(i=0;i<cnt;++i) if(L.code[i*L.cs]!=2&&L.proc[i*L.ps]==f->c->id){ L.code[j*L.cs]=L.code[i*L.cs]; L.proc[j*L.ps]=L.proc[i*L.ps]; L.el[j*L.es]=L.el[i*L.es]; for(d=0;d<f->dim;++d) L.r[j*L.rs+d]=L.r[i*L.rs+d]; ++j; } cnt=j; }
  u=dmalloc(8*f->ntot*f->nel); nodal(f,t,nt,sh,eo*(1000.*f->c->id+1),u);
  EM("{\"e\":\"feB\",\"r\":%d,\"k\":%d,\"n\":%d}\n",ME,K,cnt);
#define EA out,os*8,L.code,L.cs*IS,L.proc,L.ps*IS,L.el,L.es*IS,L.r,L.rs*8,cnt,u
#define EL out,os*8,L.el,L.es*IS,L.r,L.rs*8,cnt,u
  if(f->how=='f'){ sint so=os,cs=L.cs,ps=L.ps,es=L.es,rs=L.rs,n=cnt;
    if(local){ if(f->ims) fgslib_findptsms_eval_local_(&f->fh,out,&so,(sint*)L.el,&es,L.r,&rs,&n,u); else fgslib_findpts_eval_local_(&f->fh,out,&so,(sint*)L.el,&es,L.r,&rs,&n,u); }
    else if(f->ims) fgslib_findptsms_eval_(&f->fh,out,&so,(sint*)L.code,&cs,(sint*)L.proc,&ps,(sint*)L.el,&es,L.r,&rs,&n,u); else fgslib_findpts_eval_(&f->fh,out,&so,(sint*)L.code,&cs,(sint*)L.proc,&ps,(sint*)L.el,&es,L.r,&rs,&n,u); }
  else if(f->how=='l'){ if(f->ims){ if(f->dim==2) findptsms_local_eval_2(EL,&f->l2); else findptsms_local_eval_3(EL,&f->l3); } else if(f->dim==2) findpts_local_eval_2(EL,&f->l2); else findpts_local_eval_3(EL,&f->l3); }
  else if(f->dim==2){ if(f->ims) findptsms_eval_2(EA,f->fd); else findpts_eval_2(EA,f->fd); } else { if(f->ims) findptsms_eval_3(EA,f->fd); else findpts_eval_3(EA,f->fd); }
  gap=gapd(out,cnt,1,os)&&gapi(L.code,cnt,L.cs)&&gapi(L.el,cnt,L.es);
  EM("{\"e\":\"feE\",\"r\":%d,\"k\":%d,\"sh\":%d,\"eo\":%d,\"gap\":%d,\"f\":",ME,K,sh,eo,gap); emt(t,nt); EM(",\"a\":["); for(i=0;i<cnt;++i){ uint c=L.code[i*L.cs]; EM("%s{\"c\":%d",i?",":"",(int)c); if(c!=2){ EM(",\"pr\":%d,\"el\":%d",(int)L.proc[i*L.ps],(int)L.el[i*L.es]); em_fxs("r",L.r+i*L.rs,f->dim,1); } EM(",\"o\":"); em_fx(out[i*os]); EM("}"); } EM("]}\n");
  rfree(&L); dfree(out); dfree(u); }
/* fs K e nptmax q runs {cnt {p..}} : the search of element e by itself, several times over with one set-up */
static void fs(void){ int K=ti(),e=ti(),npm=ti(),q=ti(),runs=ti(),t,i,d,D; struct finder *f=&F[K]; struct findpts_el_data_2 a2; struct findpts_el_data_3 a3; const double *xe[3]; size_t off; double ntol=1024*DBL_EPSILON; D=f->dim; off=f->ntot*e;
  for(d=0;d<D;++d) xe[d]=f->x[d]+off; if(D==2) findpts_el_setup_2(&a2,f->n,npm),findpts_el_start_2(&a2,xe); else findpts_el_setup_3(&a3,f->n,npm),findpts_el_start_3(&a3,xe);
  for(t=0;t<runs;++t){ int cnt=ti(),*p=dmalloc(sizeof(int)*3*(cnt+1)); struct findpts_el_pt_2 *p2=D==2?findpts_el_points_2(&a2):0; struct findpts_el_pt_3 *p3=D==3?findpts_el_points_3(&a3):0; double *out=dmalloc(8*(cnt+1));
    for(i=0;i<cnt;++i){ double xi[3]={0,0,0}; p[3*i+2]=0; for(d=0;d<D;++d) p[3*i+d]=ti(), xi[d]=ldexp(p[3*i+d],-q); for(d=0;d<D;++d) *(D==2?&p2[i].x[d]:&p3[i].x[d])=pev(f->phi[d],f->nphi[d],xi,f->sh); }
    if(D==2) findpts_el_2(&a2,cnt,ntol); else findpts_el_3(&a3,cnt,ntol);
    if(cnt){ if(D==2) findpts_el_eval_2(out,8,p2[0].r,sizeof *p2,cnt,xe[0],&a2); else findpts_el_eval_3(out,8,p3[0].r,sizeof *p3,cnt,xe[0],&a3); }
    EM("{\"e\":\"fs\",\"r\":%d,\"k\":%d,\"el\":%d,\"q\":%d,\"a\":[",ME,K,e,q);
    for(i=0;i<cnt;++i){ unsigned fl=D==2?p2[i].flags:p3[i].flags; EM("%s{\"p\":[%d,%d,%d],\"in\":%d,\"cv\":%d",i?",":"",p[3*i],p[3*i+1],p[3*i+2],fl==1u<<(2*D),(fl>>(2*D))&1); em_fxs("r",D==2?p2[i].r:p3[i].r,D,1); EM(",\"d\":"); em_fx(D==2?p2[i].dist2:p3[i].dist2); EM(",\"o\":"); em_fx(out[i]); EM("}"); }
    EM("]}\n"); dfree(p); dfree(out); }
  if(D==2) findpts_el_free_2(&a2); else findpts_el_free_3(&a3); }
static void ff(void){ int K=ti(),d; struct finder *f=&F[K]; EM("{\"e\":\"ffB\",\"r\":%d,\"k\":%d}\n",ME,K);
  if(f->how=='c'){ if(f->dim==2){ if(f->ims) findptsms_free_2(f->fd); else findpts_free_2(f->fd); } else { if(f->ims) findptsms_free_3(f->fd); else findpts_free_3(f->fd); } }
  else if(f->how=='l'){ if(f->ims){ if(f->dim==2) findptsms_local_free_2(&f->l2); else findptsms_local_free_3(&f->l3); } else if(f->dim==2) findpts_local_free_2(&f->l2); else findpts_local_free_3(&f->l3); sim_free(f->lb.ptr); }
  else if(f->ims) fgslib_findptsms_free_(&f->fh); else fgslib_findpts_free_(&f->fh);
  for(d=0;d<f->dim;++d) dfree(f->x[d]),dfree(f->z[d]); dfree(f->el); if(f->df) dfree(f->df); f->used=0; EM("{\"e\":\"ffE\",\"r\":%d,\"k\":%d}\n",ME,K); }
/* an illegal Fortran call: kind handle-or-label */
static void fbad(void){ char kind[16]; strcpy(kind,tok()); int h=ti(); sint hv= h>=10000?F[h-10000].fh:h, z=0, one=1; double x=0; uint u=0; sint a=0; double r[3]={0,0,0};
  EM("{\"e\":\"fbad\",\"r\":%d,\"fn\":\"%s\",\"hk\":%d,\"hv\":%d}\n",ME,kind,h>=10000?h-10000:-1,(int)hv);
  if(!strcmp(kind,"find")) fgslib_findpts_(&hv,&a,&one,&a,&one,&a,&one,r,&one,&x,&one,&x,&one,&x,&one,&x,&one,&z);
  else if(!strcmp(kind,"findms")) fgslib_findptsms_(&hv,&a,&one,&a,&one,&a,&one,r,&one,&x,&one,&x,&one,&x,&one,&x,&one,&u,&u,&u,&z);
  else if(!strcmp(kind,"eval")) fgslib_findpts_eval_(&hv,&x,&one,&a,&one,&a,&one,&a,&one,r,&one,&z,&x);
  else if(!strcmp(kind,"evalms")) fgslib_findptsms_eval_(&hv,&x,&one,&a,&one,&a,&one,&a,&one,r,&one,&z,&x);
  else if(!strcmp(kind,"evloc")) fgslib_findpts_eval_local_(&hv,&x,&one,&a,&one,r,&one,&z,&x);
  else if(!strcmp(kind,"evlocms")) fgslib_findptsms_eval_local_(&hv,&x,&one,&a,&one,r,&one,&z,&x);
  else if(!strcmp(kind,"free")) fgslib_findpts_free_(&hv);
  else if(!strcmp(kind,"freems")) fgslib_findptsms_free_(&hv);
  else { sint np=sim_np()+(!strcmp(kind,"np")||!strcmp(kind,"npms")?h:0),dim=(!strcmp(kind,"dim")||!strcmp(kind,"dimms"))?h:2,n=3,m=6,nel=0,l=9,g=9,nm=4; MPI_Fint fc=MPI_Comm_c2f(MPI_COMM_WORLD); double tol=.1; 
    if(strstr(kind,"ms")) fgslib_findptsms_setup_(&hv,&fc,&np,&dim,&x,&x,&x,&n,&n,&n,&nel,&m,&m,&m,&tol,&l,&g,&nm,&tol,&u,&x); else fgslib_findpts_setup_(&hv,&fc,&np,&dim,&x,&x,&x,&n,&n,&n,&nel,&m,&m,&m,&tol,&l,&g,&nm,&tol); }
  EM("{\"e\":\"fbadE\",\"r\":%d}\n",ME); }
int cmd_fp(const char *c){ if(!strcmp(c,"fm")) fm(); else if(!strcmp(c,"fq")) fq(); else if(!strcmp(c,"fe")) fe(0); else if(!strcmp(c,"fl")) fe(1); else if(!strcmp(c,"ff")) ff(); else if(!strcmp(c,"fs")) fs(); else if(!strcmp(c,"rfree")) rfree(&R[ti()]); else if(!strcmp(c,"fbad")) fbad(); else return 0; return 1; }
