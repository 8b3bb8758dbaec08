/* sorting, record sorting, permutation, growable arrays */
#include "drv.h"

/* a key codec turns small integer tokens into keys of one of the types, strictly monotonically, and back */
enum { UI, UL, FL, DB_ };
struct codec { int ty,a,nz,ns,sh[64]; };
static const unsigned ksz[4]={sizeof(uint),sizeof(ulong),sizeof(float),sizeof(double)};
static struct codec rd_codec(void){ struct codec c; int i; c.ty=ti(); c.a=ti(); if(c.ty<=UL){ c.ns=ti(); for(i=0;i<c.ns;++i){ c.sh[i]=ti(); if(sizeof(ulong)==4&&c.ty==UL) c.sh[i]=i*c.a; } c.nz=0; } else c.ns=0,c.nz=ti(); return c; }
#define PINF 1000000
static void enc(const struct codec *c,void *p,int t,int odd){ int i;
  if(c->ty<=UL){ unsigned long long v=0; unsigned m=(1u<<c->a)-1; for(i=0;i<c->ns;++i) v|=(unsigned long long)(((unsigned)t>>(i*c->a))&m)<<c->sh[i]; if(c->ty==UI) *(uint*)p=(uint)v; else *(ulong*)p=v; }
  else { double d= t>=PINF?INFINITY: t<=-PINF?-INFINITY: t==0&&c->nz&&odd?-0.0: ldexp((double)t,c->a); if(c->ty==FL) *(float*)p=(float)d; else *(double*)p=d; } }
static int dec(const struct codec *c,const void *p){ int i;
  if(c->ty<=UL){ unsigned long long v= c->ty==UI?*(const uint*)p:*(const ulong*)p; unsigned m=(1u<<c->a)-1,t=0; for(i=0;i<c->ns;++i){ unsigned long long q=(v>>c->sh[i])&m; t|=(unsigned)q<<(i*c->a); v&=~((unsigned long long)m<<c->sh[i]); } return v||t>1999999999u?BADV:(int)t; }
  else { double d= c->ty==FL?*(const float*)p:*(const double*)p; if(d==INFINITY) return PINF; if(d==-INFINITY) return -PINF; d=ldexp(d,-c->a); return fabs(d)<PINF&&d==floor(d)?(int)d:BADV; } }
static const char *tyn[4]={"ui","ul","f","d"};

/* input block: n keys at the given stride, padding between them filled with a pattern; a pristine copy is kept */
struct blk { char *p,*q; size_t b; int n; unsigned st; };
static struct blk rd_keys(const struct codec *c,unsigned st,int n){ struct blk k; int i; k.n=n; k.st=st; k.b=(size_t)st*(n?n:1)+8; k.p=dmalloc(k.b); k.q=dmalloc(k.b); memset(k.p,0x6e,k.b); for(i=0;i<n;++i) enc(c,k.p+(size_t)i*st,ti(),i&1); memcpy(k.q,k.p,k.b); return k; }
static void em_keys(const char *name,const struct codec *c,const char *p,unsigned st,int n){ int i; EM(",\"%s\":[",name); for(i=0;i<n;++i) EM(i?",%d":"%d",dec(c,p+(size_t)i*st)); EM("]"); }
static void blk_free(struct blk *k){ dfree(k->p); dfree(k->q); }

static void sv(void){ struct codec c=rd_codec(); unsigned pad=ti(), w=ksz[c.ty]; int place=ti(), bf=ti(), n=ti(); struct blk k=rd_keys(&c,w+pad,n); char *o= place?k.p:dmalloc((size_t)w*(n?n:1)+16); int i,gap=1; buffer *b=getbuf(bf);
  if(!place) memset(o,0x3b,(size_t)w*(n?n:1)+16);
  switch(c.ty){ case UI: sortv((uint*)o,(uint*)k.p,n,k.st,b); break; case UL: sortv_long((ulong*)o,(ulong*)k.p,n,k.st,b); break; case FL: sortv_float((float*)o,(float*)k.p,n,k.st,b); break; default: sortv_double((double*)o,(double*)k.p,n,k.st,b); }
  if(place){ for(i=0;i<8;++i) if(k.p[(size_t)w*n+i]!=0x6e) gap=0; } else for(i=0;i<16;++i) if(o[(size_t)w*n+i]!=0x3b) gap=0;
  EM("{\"e\":\"sv\",\"r\":%d,\"ty\":\"%s\",\"pl\":%d",ME,tyn[c.ty],place); em_keys("in",&c,k.q,k.st,n); em_keys("out",&c,o,w,n); EM(",\"same\":%d,\"gap\":%d}\n",place||!memcmp(k.p,k.q,k.b),gap); if(!place) dfree(o); blk_free(&k); }
static void sp(void){ struct codec c=rd_codec(); unsigned pad=ti(), w=ksz[c.ty]; int start=ti(), bf=ti(), n=ti(); struct blk k=rd_keys(&c,w+pad,n); int i; buffer *b=getbuf(bf); uint *p,*s=0; 
  if(start){ s=dmalloc(sizeof(uint)*(n+1)); for(i=0;i<n;++i) s[i]=ti(); buffer_reserve(b,sizeof(uint)*n); if(n) memcpy(b->ptr,s,sizeof(uint)*n); }
  switch(c.ty){ case UI: p=sortp(b,start,(uint*)k.p,n,k.st); break; case UL: p=sortp_long(b,start,(ulong*)k.p,n,k.st); break; case FL: p=sortp_float(b,start,(float*)k.p,n,k.st); break; default: p=sortp_double(b,start,(double*)k.p,n,k.st); }
  EM("{\"e\":\"sp\",\"r\":%d,\"ty\":\"%s\",\"ws\":%d",ME,tyn[c.ty],start); em_keys("in",&c,k.q,k.st,n); if(start) em_uints("start",s,n); else EM(",\"start\":[]"); p=b->ptr; em_uints("out",p,n); EM(",\"same\":%d}\n",!memcmp(k.p,k.q,k.b)); if(start) dfree(s); blk_free(&k); }

/* records */
static unsigned mx(unsigned x){ x^=x>>16; x*=0x7feb352dU; x^=x>>15; x*=0x846ca68bU; x^=x>>16; return x; }
typedef unsigned long long kslot; /* room for a key of any type */
struct r0 { kslot k[4]; uint tag; };
struct r1 { uint tag; char p[3]; kslot k[4]; unsigned char q[9]; };
struct r2 { unsigned char q[40]; kslot k[4]; char p; uint tag; double z[5]; };
static int K4[4],L4[4],NF,TL[4]; static struct codec C4[4];
#define RS(T) do { T *A=dmalloc(sizeof(T)*(n+1)); int i,f; for(i=0;i<n;++i){ size_t z; for(z=0;z<sizeof(T);++z) ((unsigned char*)&A[i])[z]=mx(i*977u+z)>>3; A[i].tag=i; for(f=0;f<4;++f) A[i].k[f]=0x1111111111111111ull*(i%7); for(f=0;f<NF;++f) enc(&C4[f],&A[i].k[K4[f]],kv[i*NF+f],i&1); } \
  T *B=dmalloc(sizeof(T)*(n+1)); memcpy(B,A,sizeof(T)*n); \
  switch(NF){ case 1: sarray_sort(T,A,n,k[K4[0]],L4[0],b); break; case 2: sarray_sort_2(T,A,n,k[K4[0]],L4[0],k[K4[1]],L4[1],b); break; case 3: sarray_sort_3(T,A,n,k[K4[0]],L4[0],k[K4[1]],L4[1],k[K4[2]],L4[2],b); break; default: sarray_sort_4(T,A,n,k[K4[0]],L4[0],k[K4[1]],L4[1],k[K4[2]],L4[2],k[K4[3]],L4[3],b); } \
  for(i=0;i<n;++i){ out[i]=A[i].tag; if(A[i].tag>=(uint)n||memcmp(&A[i],&B[A[i].tag],sizeof(T))) ok=0; } dfree(A); dfree(B); } while(0)
static void rs(void){ int shape=ti(), bf=ti(), i,f,n,ok=1,*kv,*out; static const int il[4]={0,1,2,3}; buffer *b=getbuf(bf); NF=ti(); for(f=0;f<NF;++f){ K4[f]=ti(); C4[f]=rd_codec(); L4[f]=il[C4[f].ty]; } n=ti(); kv=dmalloc(sizeof(int)*(n*NF+1)); out=dmalloc(sizeof(int)*(n+1)); for(i=0;i<n*NF;++i) kv[i]=ti();
  if(shape==0) RS(struct r0); else if(shape==1) RS(struct r1); else RS(struct r2);
  EM("{\"e\":\"rs\",\"r\":%d,\"in\":[",ME); for(i=0;i<n;++i){ EM(i?",[":"["); for(f=0;f<NF;++f) EM(f?",%d":"%d",kv[i*NF+f]); EM("]"); } EM("]"); em_ints("out",out,n); EM(",\"ok\":%d}\n",ok); dfree(kv); dfree(out); }
static void pm(void){ int how=ti(), bf=ti(), size=ti(), align=ti(), n=ti(), i,z,ok=1,gap=1,kept=1; unsigned char *A=dmalloc((size_t)size*n+8),*B=dmalloc((size_t)size*n+8); uint *p=dmalloc(sizeof(uint)*(n+1)),*q=dmalloc(sizeof(uint)*(n+1)); int *out=dmalloc(sizeof(int)*(n+1)); buffer *b=getbuf(bf);
  for(i=0;i<n;++i) p[i]=q[i]=ti();
  for(i=0;i<n;++i) for(z=0;z<size;++z) A[i*size+z]= z<2?(i>>(8*z))&255:mx(i*131u+z)&255; memset(A+(size_t)size*n,0x2d,8); memcpy(B,A,(size_t)size*n);
  if(how==0){ void *w=dmalloc(size); sarray_permute_(size,A,n,q,w); dfree(w); kept=!memcmp(p,q,sizeof(uint)*n); } else if(how==1){ buffer_reserve(b,sizeof(uint)*n); if(n) memcpy(b->ptr,q,sizeof(uint)*n); sarray_permute_buf_(align,size,A,n,b); kept=!n||!memcmp(b->ptr,p,sizeof(uint)*n); }
  else { uint *v=dmalloc(sizeof(uint)*(n+1)); sarray_perm_invert(v,q,n); for(i=0;i<n;++i) out[i]=v[i]; dfree(v); EM("{\"e\":\"pi\",\"r\":%d",ME); em_uints("perm",p,n); em_ints("out",out,n); EM("}\n"); }
  if(how<2){ for(i=0;i<8;++i) if(A[(size_t)size*n+i]!=0x2d) gap=0;
    for(i=0;i<n;++i){ int t=A[i*size]; if(size>1) t|=A[i*size+1]<<8; out[i]=t; if(t>=n||memcmp(A+i*size,B+t*size,size)) ok=0; }
    EM("{\"e\":\"pm\",\"r\":%d",ME); em_uints("perm",p,n); em_ints("out",out,n); EM(",\"ok\":%d,\"gap\":%d,\"kept\":%d}\n",ok,gap,kept); }
  dfree(A); dfree(B); dfree(p); dfree(q); dfree(out); }

/* growable arrays */
struct ga { struct array a; unsigned size; int used; }; static struct ga G[16]; static unsigned nexttag;
static void fill(unsigned char *p,unsigned size,unsigned tag){ unsigned z; for(z=0;z<size;++z) p[z]= z<4?(tag>>(8*z))&255:mx(tag*977u+z)&255; }
static void em_ar(const char *op,int g,long arg){ struct ga *x=&G[g]; size_t i; unsigned z; int ok=1; EM("{\"e\":\"ar\",\"r\":%d,\"op\":\"%s\",\"g\":%d,\"arg\":%ld,\"sz\":%d,\"n\":%ld,\"max\":%ld,\"el\":[",ME,op,g,arg,(int)x->size,(long)x->a.n,(long)x->a.max);
  if(x->a.n<=x->a.max||x->a.n==0) for(i=0;i<x->a.n;++i){ unsigned char *p=(unsigned char*)x->a.ptr+i*x->size; unsigned t=0; for(z=0;z<4&&z<x->size;++z) t|=(unsigned)p[z]<<(8*z); EM(i?",%d":"%d",(int)t); if(x->size>=4) for(z=4;z<x->size;++z) if(p[z]!=(mx(t*977u+z)&255)) ok=0; }
  EM("],\"ok\":%d",ok); }
static void useroom(int g){ struct ga *x=&G[g]; if(x->a.max>x->a.n) memset((char*)x->a.ptr+x->a.n*x->size,0xC9,(x->a.max-x->a.n)*x->size); }    /* all the room there should be is writable */
int cmd_srt(const char *c){ 
  if(!strcmp(c,"sv")){ sv(); return 1; } if(!strcmp(c,"sp")){ sp(); return 1; } if(!strcmp(c,"rs")){ rs(); return 1; } if(!strcmp(c,"pm")){ pm(); return 1; }
  if(!strcmp(c,"ai")){ int g=ti(); struct ga *x=&G[g]; long m; x->size=ti(); m=ti(); if(m<0){ x->a.ptr=0; x->a.n=x->a.max=0; } else array_init_(&x->a,m,x->size,__FILE__,__LINE__); em_ar("init",g,m<0?0:m); EM("}\n"); useroom(g); return 1; }
  if(!strcmp(c,"ar")){ int g=ti(); long m=ti(); void *p=array_reserve_(&G[g].a,m,G[g].size,__FILE__,__LINE__); em_ar("reserve",g,m); EM(",\"ret\":%d}\n",p==G[g].a.ptr); useroom(g); return 1; }
  if(!strcmp(c,"az")){ int g=ti(); long m=ti(); array_resize_(&G[g].a,m,G[g].size,__FILE__,__LINE__); em_ar("resize",g,m); EM("}\n"); useroom(g); return 1; }
  if(!strcmp(c,"ac")){ int g=ti(), n=ti(), i; unsigned s=G[g].size, m= s>=4?0x7fffffff:(1u<<(8*s))-1; unsigned char *p=dmalloc((size_t)n*s+1); int *t=dmalloc(sizeof(int)*(n+1)); for(i=0;i<n;++i){ t[i]=++nexttag&m; fill(p+(size_t)i*s,s,t[i]); } array_cat_(s,&G[g].a,p,n,__FILE__,__LINE__); em_ar("cat",g,n); em_ints("add",t,n); EM("}\n"); useroom(g); dfree(p); dfree(t); return 1; }
  if(!strcmp(c,"af")){ int g=ti(); array_free(&G[g].a); G[g].a.ptr=0; EM("{\"e\":\"ar\",\"r\":%d,\"op\":\"free\",\"g\":%d}\n",ME,g); return 1; }
  return 0; }
