/* gather-scatter: C and Fortran entry points */
#include "drv.h"
#define F_(n) GS_FORTRAN_NAME(n,X)
void fgslib_gs_setup_pick_(sint*,const slong*,const sint*,const MPI_Fint*,const sint*,const sint*);
void fgslib_gs_setup_(sint*,const slong*,const sint*,const MPI_Fint*,const sint*);
void fgslib_gs_op_(const sint*,void*,const sint*,const sint*,const sint*);
void fgslib_igs_op_(const sint*,void*,const sint*,const sint*,const sint*,int*);
void fgslib_gs_op_vec_(const sint*,void*,const sint*,const sint*,const sint*,const sint*);
void fgslib_igs_op_vec_(const sint*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void fgslib_gs_op_many_(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*);
void fgslib_igs_op_many_(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void fgslib_gs_op_wait_(int*);
void fgslib_gs_op_fields_(const sint*,void*,const sint*,const sint*,const sint*,const sint*,const sint*);
void fgslib_gs_free_(const sint*);
void fgslib_gs_unique_(slong*,const sint*,const MPI_Fint*,const sint*);


struct ids { slong *id; int n, used; };
static struct ids ID[NSLOT];
/* layout: 'm' k separate blocks; 'v' one block, component fastest; 'f' one block, fields at a stride */
struct arr { int used,dom,k,n,shift,mod,stride; char lay; void **p; };
static struct arr A[NSLOT];
struct hnd { struct gs_data *g; int used, key; };
static struct hnd H[NSLOT];
struct fh { sint h; int used, key; };
static struct fh FH[NSLOT];
static int W[NSLOT*4], Wa[NSLOT*4];

static void em_slong(const slong *id,int n,const char *g,const char *f){ int i;
  EM(",\"%s\":[",g); for(i=0;i<n;++i) { unsigned long long a=id[i]<0?0ull-(unsigned long long)id[i]:(unsigned long long)id[i]; EM(i?",\"%llu\"":"\"%llu\"",a); }
  EM("],\"%s\":[",f); for(i=0;i<n;++i) EM(i?",%d":"%d",id[i]<0); EM("]"); }
static void loc(struct arr *a,int c,int i,void **p,size_t *ix){ if(a->lay=='m') *p=a->p[c],*ix=i; else if(a->lay=='v') *p=a->p[0],*ix=(size_t)i*a->k+c; else *p=a->p[0],*ix=(size_t)c*a->stride+i; }
static void em_arr(struct arr *a,const char *name){ int c,i; void *p; size_t ix; EM(",\"%s\":[",name);
  for(c=0;c<a->k;++c){ EM(c?",[":"["); for(i=0;i<a->n;++i){ loc(a,c,i,&p,&ix); EM(i?",%d":"%d",get_val(a->dom,p,ix,a->shift,a->mod)); } EM("]"); } EM("]");
  if(a->lay=='f'){ int gap=1; for(c=0;c+1<a->k;++c) for(i=a->n;i<a->stride;++i) if(get_val(a->dom,a->p[0],(size_t)c*a->stride+i,0,0)!=77) gap=0; EM(",\"gap\":%d",gap); } else EM(",\"gap\":1"); }
static void arr_new(struct arr *a,int k){ int c; if(a->used){ for(c=0;c<(a->lay=='m'?a->k:1);++c) dfree(a->p[c]); dfree(a->p); }
  a->used=1; a->p=dmalloc(sizeof(void*)*(k+1)); }
static void arr_alloc(struct arr *a){ int c; if(a->lay=='m') for(c=0;c<a->k;++c) a->p[c]=dmalloc((size_t)dsz[a->dom]*a->n);
  else if(a->lay=='v') a->p[0]=dmalloc((size_t)dsz[a->dom]*a->n*a->k); else { size_t t=a->k?(size_t)(a->k-1)*a->stride+a->n:0,i; a->p[0]=dmalloc(dsz[a->dom]*t); for(i=0;i<t;++i) put_val(a->dom,a->p[0],i,77,0); } }
void gs_dump_all(void){ int s; for(s=0;s<NSLOT;++s) if(A[s].used){ EM("{\"e\":\"rd\",\"r\":%d,\"a\":%d",ME,s); em_arr(&A[s],"v"); EM("}\n"); } }
static int fdom(int dom){ return dom==0?1:dom==SDOM?2:dom==LDOM?3:77; } /* real, integer, 64-bit integer */

static void do_op(int fort,int nb){ /* h a op t mode buf  (nonblocking: w first) */
  int w=nb?ti():-1, h=ti(), as=ti(), op=ti(), t=ti(); char mode=tok()[0]; int bs=ti(); struct arr *a=&A[as]; sint one; int i;
  int key= fort?FH[h].key:H[h].key; (void)one;
  EM("{\"e\":\"%s\",\"r\":%d,\"h\":%d,\"w\":%d,\"a\":%d,\"op\":%d,\"t\":%d,\"md\":\"%c\",\"en\":%d,\"dm\":%d,\"f\":%d,\"bs\":%d",nb?"iB":"oB",ME,key,w,as,op,t!=0,mode,a->mod,a->dom,fort,bs); em_arr(a,"in"); EM("}\n");
  sim_sent_reset();
  if(!fort){ struct gs_data *g=H[h].g; buffer *b=getbuf(bs);
    if(!nb) switch(mode){ case 'p': gs(a->p[0],a->dom,op,t,g,b); break; case 'v': gs_vec(a->p[0],a->k,a->dom,op,t,g,b); break; default: gs_many((void*const*)a->p,a->k,a->dom,op,t,g,b); }
    else switch(mode){ case 'p': igs(a->p[0],a->dom,op,t,g,b,&W[w]); break; case 'v': igs_vec(a->p[0],a->k,a->dom,op,t,g,b,&W[w]); break; default: igs_many((void*const*)a->p,a->k,a->dom,op,t,g,b,&W[w]); }
  } else { sint fd=fdom(a->dom), fo=op+1, tr=t, k=a->k; void *q[6]; for(i=0;i<6;++i) q[i]= a->lay=='m'&&i<a->k?a->p[i]:(void*)&tr;
    if(!nb) switch(mode){ case 'p': fgslib_gs_op_(&FH[h].h,a->p[0],&fd,&fo,&tr); break; case 'v': fgslib_gs_op_vec_(&FH[h].h,a->p[0],&k,&fd,&fo,&tr); break;
      case 'f': { sint st=a->stride; fgslib_gs_op_fields_(&FH[h].h,a->p[0],&st,&k,&fd,&fo,&tr); } break;
      default: fgslib_gs_op_many_(&FH[h].h,q[0],q[1],q[2],q[3],q[4],q[5],&k,&fd,&fo,&tr); }
    else switch(mode){ case 'p': fgslib_igs_op_(&FH[h].h,a->p[0],&fd,&fo,&tr,&W[w]); break; case 'v': fgslib_igs_op_vec_(&FH[h].h,a->p[0],&k,&fd,&fo,&tr,&W[w]); break;
      default: fgslib_igs_op_many_(&FH[h].h,q[0],q[1],q[2],q[3],q[4],q[5],&k,&fd,&fo,&tr,&W[w]); } }
  if(nb){ Wa[w]=as; EM("{\"e\":\"iE\",\"r\":%d,\"w\":%d,\"hv\":%d}\n",ME,w,W[w]); return; }
  EM("{\"e\":\"oE\",\"r\":%d,\"h\":%d,\"w\":%d,\"a\":%d",ME,key,w,as); em_arr(a,"out"); em_sent(); EM("}\n"); }

static void raw(void){ /* a Fortran call with arbitrary arguments: fn handle dom op  [array] */
  char fn[16]; strcpy(fn,tok()); int h=ti(), dom=ti(), op=ti(), as=ti(); sint hv=h>=10000?FH[h-10000].h:h, d=dom, o=op, t=0, k=1, st=A[as].n; int w; struct arr *a=&A[as]; void *q=a->used?a->p[0]:(void*)&t;
  EM("{\"e\":\"raw\",\"r\":%d,\"fn\":\"%s\",\"hk\":%d,\"hv\":%d,\"dom\":%d,\"op\":%d}\n",ME,fn,h>=10000?FH[h-10000].key:-1,(int)hv,dom,op);
  if(!strcmp(fn,"gs")) fgslib_gs_op_(&hv,q,&d,&o,&t); else if(!strcmp(fn,"vec")) fgslib_gs_op_vec_(&hv,q,&k,&d,&o,&t); else if(!strcmp(fn,"many")) fgslib_gs_op_many_(&hv,q,q,q,q,q,q,&k,&d,&o,&t);
  else if(!strcmp(fn,"fields")) fgslib_gs_op_fields_(&hv,q,&st,&k,&d,&o,&t); else if(!strcmp(fn,"igs")) fgslib_igs_op_(&hv,q,&d,&o,&t,&w); else if(!strcmp(fn,"ivec")) fgslib_igs_op_vec_(&hv,q,&k,&d,&o,&t,&w);
  else if(!strcmp(fn,"imany")) fgslib_igs_op_many_(&hv,q,q,q,q,q,q,&k,&d,&o,&t,&w); else if(!strcmp(fn,"free")) fgslib_gs_free_(&hv);
  else if(!strcmp(fn,"setup")||!strcmp(fn,"unique")){ slong id[1]={1}; sint n=1,np=op,m=1; MPI_Fint c=MPI_Comm_c2f(DC[dom].c.c); if(fn[0]=='s') fgslib_gs_setup_pick_(&hv,id,&n,&c,&np,&m); else fgslib_gs_unique_(id,&n,&c,&np); }
  EM("{\"e\":\"rawE\",\"r\":%d}\n",ME); }

int cmd_gs(const char *c){ int i;
  if(!strcmp(c,"ids")){ int s=ti(); if(ID[s].used) dfree(ID[s].id); ID[s].used=1; ID[s].n=ti(); ID[s].id=dmalloc(sizeof(slong)*ID[s].n); for(i=0;i<ID[s].n;++i) { long long v=tll(); if(sizeof(slong)==4) v%=2147483629; ID[s].id[i]=v; } return 1; }
  if(!strcmp(c,"idcp")){ int s=ti(),f=ti(); if(ID[s].used) dfree(ID[s].id); ID[s].used=1; ID[s].n=ID[f].n; ID[s].id=dmalloc(sizeof(slong)*ID[s].n); memcpy(ID[s].id,ID[f].id,sizeof(slong)*ID[s].n); return 1; }
  if(!strcmp(c,"uniq")||!strcmp(c,"funiq")){ int u=ti(), s=ti(), k=ti(); EM("{\"e\":\"uB\",\"r\":%d,\"u\":%d,\"c\":%d",ME,u*32+DC[k].key%32,DC[k].key); em_slong(ID[s].id,ID[s].n,"g","s"); EM("}\n");
    if(c[0]=='u') gs_unique(ID[s].id,ID[s].n,&DC[k].c); else { MPI_Fint fc=MPI_Comm_c2f(DC[k].c.c); sint n=ID[s].n,np=DC[k].c.np; fgslib_gs_unique_(ID[s].id,&n,&fc,&np); }
    EM("{\"e\":\"uE\",\"r\":%d,\"u\":%d",ME,u*32+DC[k].key%32); em_slong(ID[s].id,ID[s].n,"g","s"); EM("}\n"); return 1; }
  if(!strcmp(c,"gset")||!strcmp(c,"fset")){ int h=ti(), s=ti(), k=ti(), un=ti(), me=ti(), us=more()?ti():-1; int fort=c[0]=='f'; int key=(fort?h+NSLOT:h)*32+DC[k].key%32; sint fv=-1;
    EM("{\"e\":\"sB\",\"r\":%d,\"h\":%d,\"c\":%d,\"u\":%d,\"q\":%d,\"me\":%d,\"f\":%d",ME,key,DC[k].key,us<0?-1:us*32+DC[k].key%32,un,me,fort); em_slong(ID[s].id,ID[s].n,"g","s"); EM("}\n");
    if(!fort){ H[h].g=gs_setup(ID[s].id,ID[s].n,&DC[k].c,un,me,0); H[h].used=1; H[h].key=key; }
    else { MPI_Fint fc=MPI_Comm_c2f(DC[k].c.c); sint n=ID[s].n,np=DC[k].c.np,m=me; if(me<0) fgslib_gs_setup_(&fv,ID[s].id,&n,&fc,&np); else fgslib_gs_setup_pick_(&fv,ID[s].id,&n,&fc,&np,&m); FH[h].h=fv; FH[h].used=1; FH[h].key=key; }
    EM("{\"e\":\"sE\",\"r\":%d,\"h\":%d,\"hv\":%d",ME,key,(int)fv); em_slong(ID[s].id,ID[s].n,"g","s"); EM("}\n"); return 1; }
  if(!strcmp(c,"gfree")||!strcmp(c,"ffree")){ int h=ti(), fort=c[0]=='f', key=fort?FH[h].key:H[h].key; EM("{\"e\":\"fB\",\"r\":%d,\"h\":%d}\n",ME,key); if(!fort) gs_free(H[h].g), H[h].used=0; else fgslib_gs_free_(&FH[h].h); EM("{\"e\":\"fE\",\"r\":%d,\"h\":%d}\n",ME,key); return 1; }
  if(!strcmp(c,"arr")){ int s=ti(); struct arr *a=&A[s]; int used=a->used; struct arr o=*a; (void)used; int ch,j; void *p; size_t ix;
    o.dom=xdom(ti()); o.k=ti(); o.n=ti(); o.lay=tok()[0]; o.shift=ti(); o.mod=ti(); o.stride=ti();
    arr_new(a,o.k); o.p=a->p; o.used=1; *a=o; arr_alloc(a);
    for(ch=0;ch<a->k;++ch) for(j=0;j<a->n;++j){ loc(a,ch,j,&p,&ix); put_val(a->dom,p,ix,tll(),a->shift); }
    EM("{\"e\":\"set\",\"r\":%d,\"a\":%d",ME,s); em_arr(a,"v"); EM("}\n"); return 1; }
  if(!strcmp(c,"rd")){ int s=ti(); EM("{\"e\":\"rd\",\"r\":%d,\"a\":%d",ME,s); em_arr(&A[s],"v"); EM("}\n"); return 1; }
  if(!strcmp(c,"gs")){ do_op(0,0); return 1; } if(!strcmp(c,"igs")){ do_op(0,1); return 1; }
  if(!strcmp(c,"fgs")){ do_op(1,0); return 1; } if(!strcmp(c,"figs")){ do_op(1,1); return 1; }
  if(!strcmp(c,"wait")||!strcmp(c,"fwait")){ int w=ti(); EM("{\"e\":\"wB\",\"r\":%d,\"w\":%d}\n",ME,w); if(c[0]=='w') gs_wait(W[w]); else fgslib_gs_op_wait_(&W[w]); EM("{\"e\":\"wE\",\"r\":%d,\"w\":%d,\"a\":%d",ME,w,Wa[w]); em_arr(&A[Wa[w]],"out"); EM("}\n"); return 1; }
  if(!strcmp(c,"hf2c")){ int h=ti(), f=ti(); H[h].g=gs_hf2c(FH[f].h); H[h].used=1; H[h].key=FH[f].key; return 1; } /* the C view of a Fortran handle */
  if(!strcmp(c,"nmsg")){ int h=ti(), n=-1, k, *z; pw_data_nmsg(H[h].g,&n); z=dmalloc(sizeof(int)*(n>0?n:1)); pw_data_size(H[h].g,z);
    EM("{\"e\":\"nm\",\"r\":%d,\"h\":%d,\"n\":%d,\"z\":[",ME,H[h].key,n); for(k=0;k<n;++k) EM(k?",%d":"%d",z[k]); EM("]}\n"); dfree(z); return 1; }
  if(!strcmp(c,"raw")){ raw(); return 1; }
  return 0; }
