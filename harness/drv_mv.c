/* crystal router, array transfers, tuple transfers and sorts, reductions and scans */
#include "drv.h"
void fgslib_crystal_setup_(sint*,const MPI_Fint*,const sint*);
void fgslib_crystal_ituple_sort_(const sint*,sint*,const sint*,const sint*,const sint*,const sint*);
void fgslib_crystal_tuple_sort_(const sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*,const sint*);
void fgslib_crystal_ituple_transfer_(const sint*,sint*,const sint*,sint*,const sint*,const sint*);
void fgslib_crystal_tuple_transfer_(const sint*,sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*);
void fgslib_crystal_free_(sint*);

struct rt { struct crystal c; int used,key; }; static struct rt K[NSLOT];
struct fr { sint h; int used,key; }; static struct fr FK[NSLOT];
struct ta { struct array a; unsigned size,poff; int used; }; static struct ta T[NSLOT];

#define LSH (sizeof(slong)==4?6:33)
static unsigned mix(unsigned x){ x^=x>>16; x*=0x7feb352dU; x^=x>>15; x*=0x846ca68bU; x^=x>>16; return x; }
static int hash_words(const uint *w,uint n){ unsigned h=17,i; for(i=0;i<n;++i) h=mix(h*31+w[i]); return (int)(h&0x3fffffff); }

static void route(void){ int k=ti(), n=ti(), i; uint j,*p; struct crystal *c=&K[k].c; size_t tot=0,cap=64; uint *w=dmalloc(cap*sizeof(uint)); int *len=dmalloc(sizeof(int)*(n+1)),*to=dmalloc(sizeof(int)*(n+1)); uint *o;
  for(i=0;i<n;++i){ int tag; to[i]=ti(); len[i]=ti(); tag=ti(); if(tot+3+len[i]>cap){ uint *q; cap=2*(tot+3+len[i]); q=dmalloc(cap*sizeof(uint)); memcpy(q,w,tot*sizeof(uint)); dfree(w); w=q; }
    w[tot]=to[i]; w[tot+1]=c->comm.id; w[tot+2]=len[i]; for(j=0;j<(uint)len[i];++j) w[tot+3+j]=mix(tag*2654435761u+j); tot+=3+len[i]; }
  buffer_reserve(&c->data,tot*sizeof(uint)); if(tot) memcpy(c->data.ptr,w,tot*sizeof(uint)); c->data.n=tot;
  EM("{\"e\":\"rB\",\"r\":%d,\"k\":%d,\"in\":[",ME,K[k].key); for(i=0,p=w;i<n;++i,p+=3+p[2]) EM("%s[%d,%d,%d]",i?",":"",(int)p[0],(int)p[2],hash_words(p+3,p[2])); EM("]}\n");
  dfree(w); dfree(len); dfree(to); sim_sent_reset();
  crystal_router(c);
  EM("{\"e\":\"rE\",\"r\":%d,\"k\":%d,\"out\":[",ME,K[k].key); o=c->data.ptr; tot=0; i=0;
  while(tot<c->data.n){ if(tot+3>c->data.n||tot+3+(size_t)o[tot+2]>c->data.n) break; EM("%s[%d,%d,%d,%d]",i++?",":"",(int)o[tot],(int)o[tot+1],(int)o[tot+2],hash_words(o+tot+3,o[tot+2])); tot+=3+o[tot+2]; if(i>5000) break; }
  EM("],\"wf\":%d",tot==c->data.n); em_sent(); EM("}\n"); }

/* a record of the given size: 4 bytes of process number at poff (if poff>=0), the other bytes derived from a tag */
static void rec_fill(unsigned char *p,unsigned size,int poff,int proc,unsigned tag,unsigned salt){ unsigned i,j=0; for(i=0;i<size;++i){ if(poff>=0&&i==(unsigned)poff){ uint q=proc; memcpy(p+i,&q,IS); i+=IS-1; continue; } p[i]= j<4?(tag>>(8*j))&255:mix(tag*1000003u+j+salt)&255; ++j; } }
static void rec_read(const unsigned char *p,unsigned size,int poff,unsigned salt,int *proc,unsigned *tag,int *ok){ unsigned i,j=0; *tag=0; *ok=1;
  if(poff>=0){ uint q; memcpy(&q,p+poff,IS); *proc=(int)q; }
  for(i=0;i<size;++i){ if(poff>=0&&i==(unsigned)poff){ i+=IS-1; continue; } if(j<4) *tag|=(unsigned)p[i]<<(8*j); else if(p[i]!=(mix(*tag*1000003u+j+salt)&255)) *ok=0; ++j; } }
static unsigned tmask(unsigned size,int poff){ int n=(int)size-(poff>=0?(int)IS:0); return n>=4?0xffffffffu:n<=0?0:(1u<<(8*n))-1; }
static void em_recs(const char *name,const void *p,unsigned n,unsigned size,int poff,int withok){ unsigned i; EM(",\"%s\":[",name);
  for(i=0;i<n;++i){ int pr=-1,ok; unsigned tag; rec_read((const unsigned char*)p+(size_t)i*size,size,poff,0,&pr,&tag,&ok); if(!withok) EM("%s[%d,%d]",i?",":"",pr,(int)tag); else EM("%s[%d,%d,%d]",i?",":"",pr,(int)tag,ok); } EM("]"); }

static void satr(int ext){ int a=ti(), k=ti(); struct ta *t=&T[a]; unsigned i;
  if(!ext){ int ss=ti(); EM("{\"e\":\"tB\",\"r\":%d,\"k\":%d,\"md\":\"i\",\"ss\":%d,\"cap\":-1",ME,K[k].key,ss!=0); em_recs("in",t->a.ptr,t->a.n,t->size,t->poff,0); EM("}\n"); sim_sent_reset();
    sarray_transfer_(&t->a,t->size,t->poff,ss,&K[k].c);
    EM("{\"e\":\"tE\",\"r\":%d,\"k\":%d,\"n\":%d",ME,K[k].key,(int)t->a.n); em_recs("out",t->a.ptr,t->a.n,t->size,t->poff,1); }
  else { int st=ti(), n=ti(); if(st<(int)IS) st=IS; char *pr=dmalloc((size_t)st*n+IS); EM("{\"e\":\"tB\",\"r\":%d,\"k\":%d,\"md\":\"e\",\"ss\":0,\"cap\":-1,\"in\":[",ME,K[k].key); 
    for(i=0;i<(unsigned)n;++i){ uint q=ti(); int pp,ok; unsigned tag; memcpy(pr+(size_t)st*i,&q,IS); rec_read((unsigned char*)t->a.ptr+(size_t)i*t->size,t->size,-1,0,&pp,&tag,&ok); EM("%s[%d,%d]",i?",":"",(int)q,(int)tag); } EM("]}\n"); sim_sent_reset();
    sarray_transfer_ext_(&t->a,t->size,(uint*)pr,st,&K[k].c); dfree(pr);
    EM("{\"e\":\"tE\",\"r\":%d,\"k\":%d,\"n\":%d",ME,K[k].key,(int)t->a.n); em_recs("out",t->a.ptr,t->a.n,t->size,-1,1); }
  EM(",\"gap\":1,\"room\":%d",t->a.max>=t->a.n); em_sent(); EM("}\n"); }

/* several arrays moved together */
static void samany(void){ int k=ti(), An=ti(), ext=ti(), ss=ti(), cap=ti(), i,j; unsigned size[8]; int poff; struct array ar[8],*arp[8]; char *ext_p=0; int st=0; unsigned n,m; int room=1,gap=1; char *blk[8];
  for(i=0;i<An;++i) size[i]=ti(); poff=ti(); st=ti(); n=ti(); if(!ext) size[0]+=IS-4; if(st<(int)IS) st=IS;
  EM("{\"e\":\"tB\",\"r\":%d,\"k\":%d,\"md\":\"%c\",\"ss\":%d,\"cap\":%d,\"in\":[",ME,K[k].key,ext?'e':'i',ss!=0,cap);
  for(i=0;i<An;++i){ arp[i]=&ar[i]; if(cap<0) array_init_(&ar[i],n,size[i],__FILE__,__LINE__); else { unsigned mx=cap+(An-1-i); size_t b=(size_t)size[i]*mx; ar[i].ptr=blk[i]=dmalloc(b+64); memset(blk[i]+b,0x5c,64); ar[i].max=mx; } ar[i].n=n; }
  if(ext) ext_p=dmalloc((size_t)st*n+IS);
  for(j=0;j<(int)n;++j){ int p=ti(), tag=ti(); if(ext){ uint q=p; memcpy(ext_p+(size_t)st*j,&q,IS); }
    for(i=0;i<An;++i) rec_fill((unsigned char*)ar[i].ptr+(size_t)j*size[i],size[i],i==0&&!ext?poff:-1,p,tag,i); EM("%s[%d,%d]",j?",":"",p,tag); } EM("]}\n"); sim_sent_reset();
  m=sarray_transfer_many((struct array*const*)arp,size,An,cap>=0,ext,ss,poff,ext?(uint*)ext_p:(uint*)((char*)ar[0].ptr+poff),ext?st:size[0],&K[k].c);
  for(i=0;i<An;++i){ if(ar[i].n>ar[i].max||ar[i].n!=ar[0].n) room=0; if(cap>=0){ size_t b=(size_t)size[i]*(cap+(An-1-i)); int z; for(z=0;z<64;++z) if(blk[i][b+z]!=0x5c) gap=0; } }
  EM("{\"e\":\"tE\",\"r\":%d,\"k\":%d,\"n\":%d,\"out\":[",ME,K[k].key,(int)m);
  for(j=0;j<(int)ar[0].n&&room;++j){ int pr=-1,ok=1,o,pp; unsigned tag=0,t2; int first=1; for(i=0;i<An;++i){ int po=i==0&&!ext?poff:-1; unsigned msk=tmask(size[i],po); rec_read((unsigned char*)ar[i].ptr+(size_t)j*size[i],size[i],po,i,&pp,&t2,&o); if(po>=0) pr=pp; if(!o) ok=0; if(msk==0xffffffffu){ if(first) tag=t2,first=0; else if(tag!=t2) ok=0; } }
    for(i=0;i<An;++i){ int po=i==0&&!ext?poff:-1; unsigned msk=tmask(size[i],po); rec_read((unsigned char*)ar[i].ptr+(size_t)j*size[i],size[i],po,i,&pp,&t2,&o); if((tag&msk)!=t2) ok=0; } 
    EM("%s[%d,%d,%d]",j?",":"",pr,(int)tag,ok); }
  EM("],\"gap\":%d,\"room\":%d",gap,room); em_sent(); EM("}\n");
  for(i=0;i<An;++i) if(cap<0) array_free(&ar[i]); else dfree(blk[i]); if(ext) dfree(ext_p); }

/* Fortran tuple transfer: h kind(0=integers only) cap mi ml md kp n (p tag)*   tuples identified by tag everywhere */
static void ftransfer(void){ int h=ti(), all=ti(), cap=ti(), mi=ti(), ml=ti(), md=ti(), kp=ti(), n=ti(), i,j,gap=1; sint *vi; slong *vl; double *vr; sint fn=n,fc=cap,fm=mi,fl=ml,fd=md,fk=kp; int nst;
  if(!all) ml=md=0;
  vi=dmalloc(sizeof(sint)*((size_t)mi*cap+8)); vl=dmalloc(sizeof(slong)*((size_t)ml*cap+8)); vr=dmalloc(sizeof(double)*((size_t)md*cap+8));
  for(i=0;i<8;++i) vi[(size_t)mi*cap+i]=-123,vl[(size_t)ml*cap+i]=-123,vr[(size_t)md*cap+i]=-123;
  EM("{\"e\":\"tB\",\"r\":%d,\"k\":%d,\"md\":\"i\",\"ss\":1,\"cap\":%d,\"in\":[",ME,FK[h].key,cap);
  for(j=0;j<n;++j){ int p=ti(), tag=ti(); for(i=0;i<mi;++i) vi[j*mi+i]= i==kp-1?p:tag+i*7; for(i=0;i<ml;++i) vl[j*ml+i]=((slong)tag<<LSH)+i*5; for(i=0;i<md;++i) vr[j*md+i]=tag+0.25*i; EM("%s[%d,%d]",j?",":"",p,(mi>1||ml||md)?tag:0); } EM("]}\n"); sim_sent_reset();
  if(all) fgslib_crystal_tuple_transfer_(&FK[h].h,&fn,&fc,vi,&fm,vl,&fl,vr,&fd,&fk); else fgslib_crystal_ituple_transfer_(&FK[h].h,vi,&fm,&fn,&fc,&fk);
  nst=fn<cap?fn:cap; if(nst<0) nst=0; EM("{\"e\":\"tE\",\"r\":%d,\"k\":%d,\"n\":%d,\"out\":[",ME,FK[h].key,(int)fn);
  for(j=0;j<nst;++j){ int tag=0,ok=1,got=0; for(i=0;i<mi;++i) if(i!=kp-1){ int t=vi[j*mi+i]-i*7; if(!got) tag=t,got=1; else if(t!=tag) ok=0; }
    for(i=0;i<ml;++i){ slong t=vl[j*ml+i]-i*5; if(t&(((slong)1<<LSH)-1)) ok=0; t>>=LSH; if(!got) tag=(int)t,got=1; else if(t!=tag) ok=0; }
    for(i=0;i<md;++i){ double t=vr[j*md+i]-0.25*i; if(!got) tag=(int)t,got=1; if(t!=tag) ok=0; }
    EM("%s[%d,%d,%d]",j?",":"",(int)vi[j*mi+kp-1],tag,ok); }
  for(i=0;i<8;++i) if(vi[(size_t)mi*cap+i]!=-123||vl[(size_t)ml*cap+i]!=-123||vr[(size_t)md*cap+i]!=-123) gap=0;
  EM("],\"gap\":%d,\"room\":1",gap); em_sent(); EM("}\n"); dfree(vi); dfree(vl); dfree(vr); }
/* sorts: h all mi ml md shift nkey keys n values(row-wise: mi ints, ml longs, md reals) */
static void em_rows(const char *name,const sint *vi,int mi,const slong *vl,int ml,const double *vr,int md,int n,int shift){ int i,j; EM(",\"%s\":[",name); for(j=0;j<n;++j){ int c=0; EM(j?",[":"["); for(i=0;i<mi;++i) EM(c++?",%d":"%d",(int)vi[j*mi+i]); for(i=0;i<ml;++i) EM(c++?",%d":"%d",get_val(LDOM,vl,j*ml+i,shift,0)); for(i=0;i<md;++i) EM(c++?",%d":"%d",get_val(0,vr,j*md+i,0,0)); EM("]"); } EM("]"); }
static void fsort(void){ int h=ti(), all=ti(), mi=ti(), ml=ti(), md=ti(), shift=ti(), nk=ti(), i,j,n; sint keys[16]; for(i=0;i<nk;++i) keys[i]=ti(); n=ti(); if(sizeof(slong)==4) shift=0; sint *vi=dmalloc(sizeof(sint)*((size_t)mi*n+1)); slong *vl=dmalloc(sizeof(slong)*((size_t)ml*n+1)); double *vr=dmalloc(sizeof(double)*((size_t)md*n+1)); sint fn=n,fm=mi,fl=ml,fd=md,fk=nk;
  for(j=0;j<n;++j){ for(i=0;i<mi;++i) vi[j*mi+i]=ti(); for(i=0;i<ml;++i) put_val(LDOM,vl,j*ml+i,tll(),shift); for(i=0;i<md;++i) vr[j*md+i]=ti(); }
  EM("{\"e\":\"fs\",\"r\":%d,\"k\":%d",ME,FK[h].key); em_uints("keys",(uint*)keys,nk); em_rows("in",vi,mi,vl,ml,vr,md,n,shift);
  if(all) fgslib_crystal_tuple_sort_(&FK[h].h,&fn,vi,&fm,vl,&fl,vr,&fd,keys,&fk); else fgslib_crystal_ituple_sort_(&FK[h].h,vi,&fm,&fn,keys,&fk);
  em_rows("out",vi,mi,vl,ml,vr,md,n,shift); EM("}\n"); dfree(vi); dfree(vl); dfree(vr); }
static void fraw(void){ char fn[8]; strcpy(fn,tok()); int h=ti(); sint hv=h>=10000?FK[h-10000].h:h; sint A[8]={0,0,0,0},one=1,key=1,n=1,cap=1,zero=0; slong L[2]={0}; double D[2]={0};
  int bad=!strcmp(fn,"badkey"); if(bad) key=ti();
  if(!strcmp(fn,"setup")){ MPI_Fint fc=MPI_Comm_c2f(MPI_COMM_WORLD); sint np=sim_np()+h; EM("{\"e\":\"raw\",\"r\":%d,\"hk\":-1,\"hv\":-1,\"bad\":1}\n",ME); fgslib_crystal_setup_(&hv,&fc,&np); EM("{\"e\":\"rawE\",\"r\":%d}\n",ME); return; }
  EM("{\"e\":\"raw\",\"r\":%d,\"hk\":%d,\"hv\":%d,\"bad\":%d}\n",ME,h>=10000?FK[h-10000].key:-1,(int)hv,bad);
  if(bad) strcpy(fn,"sort");
  if(!strcmp(fn,"isort")) fgslib_crystal_ituple_sort_(&hv,A,&one,&n,&key,&one); else if(!strcmp(fn,"sort")) fgslib_crystal_tuple_sort_(&hv,&n,A,&one,L,&one,D,&one,&key,&one);
  else if(!strcmp(fn,"itr")) fgslib_crystal_ituple_transfer_(&hv,A,&one,&n,&cap,&key); else if(!strcmp(fn,"tr")) fgslib_crystal_tuple_transfer_(&hv,&n,&cap,A,&one,L,&one,D,&one,&key); else fgslib_crystal_free_(&hv);
  EM("{\"e\":\"rawE\",\"r\":%d}\n",ME); }

/* reductions: values are read and logged in the integer encoding */
struct pend { int used,dom,n,shift,mod,key; void *v,*b; comm_req req; }; static struct pend P[NSLOT];
static void *vals(int dom,int n,int shift){ void *p=dmalloc((size_t)dsz[dom]*n+16); int i; for(i=0;i<n;++i) put_val(dom,p,i,tll(),shift); return p; }
static void em_vals(const char *name,int dom,const void *p,int n,int shift,int mod){ int i; EM(",\"%s\":[",name); for(i=0;i<n;++i) EM(i?",%d":"%d",get_val(dom,p,i,shift,mod)); EM("]"); }
static void em_ab(const char *kind,int key,int w,int op,int mod,int root){ EM("{\"e\":\"aB\",\"r\":%d,\"c\":%d,\"w\":%d,\"kind\":\"%s\",\"op\":%d,\"en\":%d,\"root\":%d",ME,key,w,kind,op,mod,root); }
static int guard(const char *p,size_t n){ int i; for(i=0;i<16;++i) if(p[n+i]!=0x3b) return 0; return 1; }
static void *scratch(size_t n){ char *p=dmalloc(n+16); memset(p,0x77,n); memset(p+n,0x3b,16); return p; }
static void reductions(const char *c){ 
  if(!strcmp(c,"cwait")){ int w=ti(); comm_wait(&P[w].req,1); EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":%d",ME,w,guard(P[w].b,(size_t)dsz[P[w].dom]*P[w].n)); em_vals("out",P[w].dom,P[w].b,P[w].n,P[w].shift,P[w].mod); EM("}\n"); dfree(P[w].v); dfree(P[w].b); return; }
  int w=ti(), k=ti(); struct comm *C=&DC[k].c; int key=DC[k].key;
  if(!strcmp(c,"bcast")){ int root=ti(), n=ti(), i; unsigned char *p=scratch(n); for(i=0;i<n;++i){ p[i]=ti(); } em_ab("bcast",key,w,0,0,root); EM(",\"in\":["); for(i=0;i<n;++i) EM(i?",%d":"%d",p[i]); EM("]}\n"); comm_bcast(C,p,n,root); EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":%d,\"out\":[",ME,w,guard((char*)p,n)); for(i=0;i<n;++i) EM(i?",%d":"%d",p[i]); EM("]}\n"); dfree(p); return; }
  if(!strcmp(c,"gather")){ int root=ti(), n=ti(), i,m=n*(int)C->np; unsigned char *p=scratch(n),*q=scratch(m); for(i=0;i<n;++i) p[i]=ti(); em_ab("gather",key,w,0,0,root); EM(",\"in\":["); for(i=0;i<n;++i) EM(i?",%d":"%d",p[i]); EM("]}\n"); comm_gather(C,p,n,q,n,root); EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":%d,\"out\":[",ME,w,guard((char*)q,m)&&guard((char*)p,n)); if((int)C->id==root) for(i=0;i<m;++i) EM(i?",%d":"%d",q[i]); EM("]}\n"); dfree(p); dfree(q); return; }
  int dom=xdom(ti()), op=ti(), n=ti(), shift=ti(), mod=ti(); size_t len=(size_t)dsz[dom]*n;
  if(!strcmp(c,"dot")){ double *v=vals(0,n,shift),*u=vals(0,n,shift),s; int i; em_ab("dot",key,w,0,0,0); EM(",\"in\":["); for(i=0;i<n;++i) EM("%s%d",i?",":"",get_val(0,v,i,shift,0)); for(i=0;i<n;++i) EM(",%d",get_val(0,u,i,shift,0)); EM("]}\n"); s=comm_dot(C,v,u,n); EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":1,\"out\":[%d]}\n",ME,w,get_val(0,&s,0,2*shift,0)); dfree(v); dfree(u); return; }
  void *v=vals(dom,n,shift); 
  if(!strcmp(c,"allred")){ void *b=scratch(len); memset((char*)v+len,0x3b,16); em_ab("allred",key,w,op,mod,0); em_vals("in",dom,v,n,shift,mod); EM("}\n"); comm_allreduce(C,dom,op,v,n,b); EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":%d",ME,w,guard(v,len)&&guard(b,len)); em_vals("out",dom,v,n,shift,mod); EM("}\n"); dfree(v); dfree(b); }
  else if(!strcmp(c,"iallred")){ struct pend *q=&P[w]; memset((char*)v+len,0x3b,16); q->v=v; q->b=scratch(len); q->dom=dom; q->n=n; q->shift=shift; q->mod=mod; em_ab("allred",key,w,op,mod,0); em_vals("in",dom,v,n,shift,mod); EM("}\n"); comm_iallreduce(&q->req,C,dom,op,v,n,q->b); }
  else if(!strcmp(c,"scan")){ void *o=scratch(2*len),*b=scratch(2*len); memset((char*)v+len,0x3b,16); em_ab("scan",key,w,op,mod,0); em_vals("in",dom,v,n,shift,mod); EM("}\n"); comm_scan(o,C,dom,op,v,n,b); EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":%d",ME,w,guard(v,len)&&guard(o,2*len)&&guard(b,2*len)); em_vals("out",dom,o,2*n,shift,mod); EM("}\n"); dfree(v); dfree(o); dfree(b); }
  else { double d; float f; int i; long l; long long q; void *r; em_ab("red",key,w,op,mod,0); em_vals("in",dom,v,n,shift,mod); EM("}\n");
    switch(dom){ case 0: d=comm_reduce_double(C,op,v,n); r=&d; break; case 1: f=comm_reduce_float(C,op,v,n); r=&f; break; case 2: i=comm_reduce_int(C,op,v,n); r=&i; break; case 3: l=comm_reduce_long(C,op,v,n); r=&l; break; GS_WHEN_LONG_LONG(default: q=comm_reduce_long_long(C,op,v,n); r=&q;) }
    EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":1",ME,w); em_vals("out",dom,r,1,shift,mod); EM("}\n"); dfree(v); } }

int cmd_mv(const char *c){ int i;
  if(!strcmp(c,"crnew")){ int k=ti(), s=ti(); K[k].key=k*32+DC[s].key%32; EM("{\"e\":\"crB\",\"r\":%d,\"k\":%d,\"c\":%d}\n",ME,K[k].key,DC[s].key); crystal_init(&K[k].c,&DC[s].c); EM("{\"e\":\"crE\",\"r\":%d,\"k\":%d,\"hv\":-1}\n",ME,K[k].key); return 1; }
  if(!strcmp(c,"crdel")){ int k=ti(); crystal_free(&K[k].c); EM("{\"e\":\"crF\",\"r\":%d,\"k\":%d}\n",ME,K[k].key); return 1; }
  if(!strcmp(c,"route")){ route(); return 1; }
  if(!strcmp(c,"sa")){ int a=ti(), n; struct ta *t=&T[a]; if(t->used) array_free(&t->a); t->used=1; t->size=ti(); t->poff=ti(); if((int)t->poff>=0) t->size+=IS-4; n=ti(); array_init_(&t->a,n,t->size,__FILE__,__LINE__); t->a.n=n; for(i=0;i<n;++i){ int p=ti(), tag=ti(); rec_fill((unsigned char*)t->a.ptr+(size_t)i*t->size,t->size,(int)t->poff<0?-1:(int)t->poff,p,tag,0); } return 1; }
  if(!strcmp(c,"sadel")){ int a=ti(); if(T[a].used) array_free(&T[a].a); T[a].used=0; return 1; }
  if(!strcmp(c,"satr")){ satr(0); return 1; } if(!strcmp(c,"saext")){ satr(1); return 1; } if(!strcmp(c,"samany")){ samany(); return 1; }
  if(!strcmp(c,"fcset")){ int k=ti(), s=ti(); MPI_Fint fc=MPI_Comm_c2f(DC[s].c.c); sint np=DC[s].c.np; FK[k].key=(k+NSLOT)*32+DC[s].key%32; FK[k].h=-1; EM("{\"e\":\"crB\",\"r\":%d,\"k\":%d,\"c\":%d}\n",ME,FK[k].key,DC[s].key); fgslib_crystal_setup_(&FK[k].h,&fc,&np); EM("{\"e\":\"crE\",\"r\":%d,\"k\":%d,\"hv\":%d}\n",ME,FK[k].key,(int)FK[k].h); return 1; }
  if(!strcmp(c,"fcdel")){ int k=ti(); fgslib_crystal_free_(&FK[k].h); EM("{\"e\":\"crF\",\"r\":%d,\"k\":%d}\n",ME,FK[k].key); return 1; }
  if(!strcmp(c,"fct")){ ftransfer(); return 1; } if(!strcmp(c,"fcsort")){ fsort(); return 1; } if(!strcmp(c,"fcraw")){ fraw(); return 1; }
  if(!strcmp(c,"allred")||!strcmp(c,"iallred")||!strcmp(c,"cwait")||!strcmp(c,"scan")||!strcmp(c,"red")||!strcmp(c,"dot")||!strcmp(c,"bcast")||!strcmp(c,"gather")){ reductions(c); return 1; }
  return 0; }
