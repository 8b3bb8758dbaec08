/* Deterministic adversarial MPI simulator.
   usage: sim RANKLIB SCRATCHDIR SCENARIOS OUT
   Every scenario runs in a forked child; ranks are coroutines, each with its own copy of RANKLIB (so that
   file-scope variables of the library are per rank, as in a real MPI job). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include "mpi.h"
#include "sim.h"

#define MAXNP 24
#define STACK (8<<20)

/* ---------- scenario parameters ---------- */
static int np, pol, colsync, fillbyte; static long eager; static uint64_t rng; static char sid[128];
static char *prog[MAXNP];

/* ---------- trace ---------- */
static char *tb; static size_t tn, tcap; static int outfd;
static size_t emitted; static int flooded; static void flood(void) __attribute__((noreturn));
static void tflush(void){ size_t o=0; emitted+=tn; if(emitted>(64u<<20)&&!flooded) flood(); while(o<tn){ ssize_t k=write(outfd,tb+o,tn-o); if(k<=0) break; o+=k; } tn=0; }
void sim_emit(const char *fmt,...){ va_list ap; int k; if(tn+65536>tcap) tflush();
  va_start(ap,fmt); k=vsnprintf(tb+tn,tcap-tn,fmt,ap); va_end(ap); if(k>0){ if((size_t)k>=tcap-tn) k=tcap-tn-1; tn+=k; } }
static uint64_t rnd64(void){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
unsigned sim_rand(void){ return (unsigned)(rnd64()>>24); }

/* ---------- ranks ---------- */
enum { READY, BLOCKED, DONE };
struct rank { ucontext_t ctx; void *stack; int st; int (*cond)(void*); void *arg; long sent, sto[MAXNP]; long comms, reqs, bytes; int inmpi; long wt; };
static struct rank R[MAXNP]; static int cur=-1; static ucontext_t main_ctx; static long steps;
int sim_rank(void){ return cur; } int sim_np(void){ return np; }
const char *sim_program(void){ return prog[cur]; }
long sim_sent(void){ return R[cur].sent; }
void sim_sent_reset(void){ memset(R[cur].sto,0,sizeof R[cur].sto); R[cur].sent=0; }
int sim_sent_to(int d){ return R[cur].sto[d]; }
static int nompi;  /* the library was built without MPI: it holds no communicators to count (reported as -1) */
long sim_live_comms(void){ return nompi?-1:R[cur].comms; } long sim_live_reqs(void){ return R[cur].reqs; } long sim_live_bytes(void){ return R[cur].bytes; }
static void finish(int code) __attribute__((noreturn));
static void finish(int code){ sim_emit("\n"); tflush(); _exit(code); }
static void flood(void){ flooded=1; tn=0; sim_emit("\n{\"e\":\"flood\",\"r\":%d}\n",cur); tflush(); _exit(7); }
static int nerr=0;
void sim_error(const char *what,const char *fmt,...){ char b[512]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  if(nerr++<5) sim_emit("{\"e\":\"mpierr\",\"r\":%d,\"what\":\"%s\",\"d\":\"%s\"}\n",cur,what,b); }
static void (*exit_cb[MAXNP])(void);
void sim_on_exit(void (*cb)(void)){ exit_cb[cur]=cb; }
void sim_exit(int st){ sim_emit("{\"e\":\"exit\",\"r\":%d,\"st\":%d}\n",cur,st!=0); if(cur>=0&&exit_cb[cur]) exit_cb[cur](); finish(0); }
static void yield_(void){ swapcontext(&R[cur].ctx,&main_ctx); }
void sim_pause(void){ if(pol==0) return; if(pol==1 && (rnd64()>>40)%3) return; R[cur].st=READY; yield_(); }
static void block_on(int (*c)(void*),void *a){ while(!c(a)){ R[cur].st=BLOCKED; R[cur].cond=c; R[cur].arg=a; yield_(); } R[cur].st=READY; }

/* ---------- guarded heap ---------- */
struct blk { size_t size; struct blk *n,*p; int rank; unsigned magic; char pad[8]; };
static struct blk heap={0,&heap,&heap,0,0,{0}};
#define CAN 32
static size_t grabbed;
void *sim_malloc(size_t s){ struct blk *b; if(s>(1u<<29)||(grabbed+=s)>(1u<<30)) flood(); b=malloc(sizeof *b+s+CAN); if(!b) return 0; b->size=s; b->rank=cur; b->magic=0x51ab51ab;
  b->n=heap.n; b->p=&heap; heap.n->p=b; heap.n=b; memset(b+1,fillbyte,s); memset((char*)(b+1)+s,0xEE,CAN); if(cur>=0) R[cur].bytes+=s; return b+1; }
void *sim_calloc(size_t a,size_t c){ void *p=sim_malloc(a*c); if(p) memset(p,0,a*c); return p; }
static int blk_ok(struct blk *b){ unsigned char *c=(unsigned char*)(b+1)+b->size; for(int i=0;i<CAN;++i) if(c[i]!=0xEE) return 0; return 1; }
void sim_free(void *p){ struct blk *b=(struct blk*)p-1; if(!p) return;
  if(b->magic!=0x51ab51ab){ sim_error("heap","bad or double free"); return; }
  if(!blk_ok(b)) sim_error("heap","write beyond the end of a block of %zu bytes of rank %d",b->size,b->rank);
  b->magic=0xdeadbeef; b->n->p=b->p; b->p->n=b->n; if(b->rank>=0) R[b->rank].bytes-=b->size; memset(b+1,0xDD,b->size); 
  /* freed memory is kept (poisoned) so that stale uses are visible */
  if(b->size>(1u<<16)) { grabbed-=b->size; free(b); } }
void *sim_realloc(void *p,size_t s){ void *q; if(!p) return sim_malloc(s); struct blk *b=(struct blk*)p-1;
  if(b->magic!=0x51ab51ab){ sim_error("heap","realloc of a bad pointer"); return sim_malloc(s); }
  q=sim_malloc(s); memcpy(q,p,s<b->size?s:b->size); sim_free(p); return q; }
void sim_heapcheck(void){ for(struct blk *b=heap.n;b!=&heap;b=b->n) if(!blk_ok(b)){ sim_error("heap","write beyond the end of a block of %zu bytes of rank %d",b->size,b->rank); memset((char*)(b+1)+b->size,0xEE,CAN); } }

/* ---------- communicators ---------- */
struct coll { int kind,root,count,op,dt,arrived; void *in[MAXNP]; size_t inlen[MAXNP]; int has[MAXNP]; int ia[MAXNP],ib[MAXNP]; void *res; int newctx[MAXNP]; };
struct ctx { int n, w[MAXNP], live[MAXNP]; long seq[MAXNP]; struct coll **c; long nc; };
static struct ctx **C; static int nC, capC;
static int newctx(int n,const int *w){ if(nC==capC){ capC=capC?2*capC:64; C=realloc(C,capC*sizeof *C);} struct ctx *x=calloc(1,sizeof *x); x->n=n; for(int i=0;i<n;++i) x->w[i]=w[i],x->live[i]=1; C[nC]=x; return nC++; }
static struct ctx *ctx_of(MPI_Comm h,int *me,const char *fn){ int i; if(h==MPI_COMM_SELF) h=3+cur;
  if(h<=0 || h>=nC || !C[h]) { sim_error("comm","%s: invalid communicator",fn); finish(0); }
  for(i=0;i<C[h]->n;++i) if(C[h]->w[i]==cur) break;
  if(i==C[h]->n){ sim_error("comm","%s: not a member",fn); finish(0); }
  if(!C[h]->live[i]) { sim_error("comm","%s: freed communicator",fn); finish(0); }
  *me=i; return C[h]; }

/* ---------- point to point ---------- */
struct msg { int alive, ctx, src, dst, tag; const void *p; void *copy; size_t len; uint64_t sum; int done; struct rcv *m; int freed; int sync; };
struct rcv { int alive, ctx, src, dst, tag; void *p; void *orig; size_t len; int done; struct msg *m; int rsrc, rtag; size_t rlen; };
struct req { int kind; /*1 send 2 recv 3 coll*/ struct msg *s; struct rcv *r; struct coll *c; struct ctx *x; int me; void *out; void *orig; const void *in; uint64_t sum; size_t len; int owner; };
static struct msg **S; static int nS,cS; static struct rcv **V; static int nV,cV; static struct req **Q; static int nQ,cQ;
static uint64_t fnv(const void *p,size_t n){ uint64_t h=1469598103934665603ull; const unsigned char*c=p; while(n--) h=(h^*c++)*1099511628211ull; return h; }
#define POISON 0xC3
static int newreq(struct req q){ if(nQ==cQ){cQ=cQ?2*cQ:256;Q=realloc(Q,cQ*sizeof*Q);} struct req*x=malloc(sizeof*x); *x=q; x->owner=cur; Q[nQ]=x; R[cur].reqs++; return 0x4000000+(nQ++); }
static struct req *getreq(MPI_Request h){ int i=h-0x4000000; if(i<0||i>=nQ||!Q[i]||Q[i]->owner!=cur){ sim_error("request","wait on an invalid request"); finish(0);} return Q[i]; }
static void try_match(void){ /* in posting order */
  for(int i=0;i<nV;++i){ struct rcv*v=V[i]; if(v->m||v->done) continue;
    for(int j=0;j<nS;++j){ struct msg*s=S[j]; if(s->m||s->ctx!=v->ctx||s->dst!=v->dst) continue; if(v->src!=MPI_ANY_SOURCE&&v->src!=s->src) continue; if(v->tag!=MPI_ANY_TAG&&v->tag!=s->tag) continue;
      s->m=v; v->m=s; break; } } }
static void gc(void){ int k=0; for(int i=0;i<nS;++i) if(!(S[i]->done&&S[i]->m&&S[i]->m->done)) S[k++]=S[i]; nS=k; k=0; for(int i=0;i<nV;++i) if(!V[i]->done) V[k++]=V[i]; nV=k; }
static void check_send(struct msg*s){ if(!s->freed && s->p && fnv(s->p,s->len)!=s->sum){ sim_error("sendbuf","send buffer modified before completion"); s->freed=1; } }
static void transfer(struct rcv*v){ struct msg*s=v->m; const unsigned char*q; size_t i,n;
  if(!s->done) check_send(s);
  q=v->p; for(i=0;i<v->len;++i) if(q[i]!=POISON){ sim_error("recvbuf","receive buffer accessed before completion"); break; }
  memcpy(v->p,v->orig,v->len);
  n=s->len; if(n>v->len){ sim_error("truncate","message of %zu bytes into a buffer of %zu",n,v->len); n=v->len; }
  else if(n<v->len) sim_error("size","message of %zu bytes received into %zu",n,v->len);
  memcpy(v->p,s->copy,n); free(v->orig); v->orig=0; v->rsrc=s->src; v->rtag=s->tag; v->rlen=n; v->done=1; s->done=1; free(s->copy); s->copy=0; }
static int progress_one(void){ int idx[512],k=0; for(int i=0;i<nV&&k<512;++i) if(V[i]->m&&!V[i]->done) idx[k++]=i; if(!k) return 0;
  transfer(V[idx[pol==0?0:rnd64()%k]]); gc(); return 1; }
static struct msg *post_send(const void*b,size_t len,int dst,int tag,MPI_Comm c,int sync,const char*fn){ int me; struct ctx*x=ctx_of(c,&me,fn); struct msg*s;
  if(dst<0||dst>=x->n){ sim_error("rank","%s: bad destination %d",fn,dst); finish(0);} if(tag<0) sim_error("tag","negative tag");
  s=calloc(1,sizeof*s); s->ctx=(c==MPI_COMM_SELF?3+cur:c); s->src=me; s->dst=dst; s->tag=tag; s->p=b; s->len=len; s->copy=malloc(len?len:1); memcpy(s->copy,b,len); s->sum=fnv(b,len); s->sync=sync;
  if(nS==cS){cS=cS?2*cS:256;S=realloc(S,cS*sizeof*S);} S[nS++]=s; R[cur].sent++; R[cur].sto[x->w[dst]]++;
  if(!sync && (long)len<=eager) s->done=1;
  try_match(); return s; }
static struct rcv *post_recv(void*b,size_t len,int src,int tag,MPI_Comm c,const char*fn){ int me; struct ctx*x=ctx_of(c,&me,fn); struct rcv*v;
  if(src!=MPI_ANY_SOURCE&&(src<0||src>=x->n)){ sim_error("rank","%s: bad source %d",fn,src); finish(0);}
  v=calloc(1,sizeof*v); v->ctx=(c==MPI_COMM_SELF?3+cur:c); v->dst=me; v->src=src; v->tag=tag; v->p=b; v->len=len; v->orig=malloc(len?len:1); memcpy(v->orig,b,len); memset(b,POISON,len);
  if(nV==cV){cV=cV?2*cV:256;V=realloc(V,cV*sizeof*V);} V[nV++]=v; try_match(); return v; }
static void maybe_progress(void){ if(pol==1||pol==3){ while((rnd64()>>33)&1) if(!progress_one()) break; } }
static void enter(void){ if(++steps>20000000) { sim_emit("{\"e\":\"hang\",\"r\":%d}\n",cur); finish(0);} sim_pause(); maybe_progress(); }

static size_t dts(MPI_Datatype d){ return d&15; }

/* ---------- collectives ---------- */
enum { K_BAR=1,K_BCAST,K_GATHER,K_ALLG,K_RED,K_ALLR,K_SCAN,K_EXSCAN,K_DUP,K_SPLIT,K_A2A,K_A2AV,K_SCATTER,K_GATHERV,K_ALLGV,K_IALLR,K_IBAR };
static struct coll *join(struct ctx*x,int me,int kind,int root,int count,int dt,int op,const void*in,size_t inlen,int a,int b){ long s=x->seq[me]++; struct coll*c;
  if(s>=x->nc){ x->c=realloc(x->c,(s+1)*sizeof*x->c); while(x->nc<=s) x->c[x->nc++]=calloc(1,sizeof(struct coll)); }
  c=x->c[s]; if(!c->arrived) c->kind=kind,c->root=root,c->count=count,c->dt=dt,c->op=op;
  else if(c->kind!=kind||c->root!=root||c->dt!=dt||c->op!=op||(c->count!=count&&kind!=K_A2AV&&kind!=K_GATHERV&&kind!=K_ALLGV)) { sim_error("collective","mismatched collective calls (%d/%d, count %d/%d)",c->kind,kind,c->count,count); finish(0); }
  c->in[me]=malloc(inlen?inlen:1); if(inlen) memcpy(c->in[me],in,inlen); c->inlen[me]=inlen; c->has[me]=1; c->ia[me]=a; c->ib[me]=b; c->arrived++; return c; }
struct cw { struct ctx*x; struct coll*c; int upto; int who; };
static int all_in(void*a){ struct cw*w=a; return w->c->arrived==w->x->n; }
static int prefix_in(void*a){ struct cw*w=a; for(int i=0;i<=w->upto;++i) if(!w->c->has[i]) return 0; return 1; }
static int one_in(void*a){ struct cw*w=a; return w->c->has[w->who]; }
static void cwait(struct ctx*x,struct coll*c){ struct cw w={x,c,0,0}; block_on(all_in,&w); }
#define OPS(T) { T*a=acc; const T*b=v; for(int i=0;i<n;++i) switch(op){ case MPI_SUM:a[i]=a[i]+b[i];break; case MPI_PROD:a[i]=a[i]*b[i];break; case MPI_MIN:if(b[i]<a[i])a[i]=b[i];break; case MPI_MAX:if(b[i]>a[i])a[i]=b[i];break; default: sim_error("op","unsupported reduction");} }
static void combine(void*acc,const void*v,int n,int dt,int op){ switch(dt){ case MPI_INT:OPS(int) break; case MPI_UNSIGNED:OPS(unsigned) break; case MPI_LONG:OPS(long) break; case MPI_UNSIGNED_LONG:OPS(unsigned long) break;
  case MPI_LONG_LONG:OPS(long long) break; case MPI_UNSIGNED_LONG_LONG:OPS(unsigned long long) break; case MPI_FLOAT:OPS(float) break; case MPI_DOUBLE:OPS(double) break; case MPI_SHORT:OPS(short) break;
  case MPI_UNSIGNED_CHAR: case MPI_BYTE:OPS(unsigned char) break; case MPI_CHAR: case MPI_SIGNED_CHAR:OPS(signed char) break; default: sim_error("type","unsupported datatype in reduction"); } }
static void reduce_into(struct ctx*x,struct coll*c,void*out,int lo,int hi){ size_t len=c->count*dts(c->dt); int first=1; int ord[MAXNP],k=0; (void)x;
  for(int i=lo;i<hi;++i) ord[k++]=i; 
  void*tmp=malloc(len?len:1); for(int i=0;i<k;++i){ if(first) memcpy(tmp,c->in[ord[i]],len),first=0; else combine(tmp,c->in[ord[i]],c->count,c->dt,c->op);} if(!first) memcpy(out,tmp,len); free(tmp); }
#define ENTER(fn) int me; struct ctx*x; enter(); x=ctx_of(c,&me,fn)
int MPI_Barrier(MPI_Comm c){ ENTER("Barrier"); struct coll*k=join(x,me,K_BAR,0,0,0,0,0,0,0,0); cwait(x,k); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype d,int root,MPI_Comm c){ ENTER("Bcast"); size_t len=n*dts(d); struct coll*k=join(x,me,K_BCAST,root,n*(int)dts(d),0,0,b,me==root?len:0,0,0);
  if(me!=root){ struct cw w={x,k,0,root}; if(colsync) cwait(x,k); else block_on(one_in,&w); if(k->inlen[root]!=len) sim_error("size","bcast lengths differ"); else memcpy(b,k->in[root],len);} else if(colsync) cwait(x,k); return 0; }
int MPI_Gather(const void*s,int n,MPI_Datatype d,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c){ ENTER("Gather"); size_t len=n*dts(d); 
  if(s==MPI_IN_PLACE) s=(char*)r+me*len; struct coll*k=join(x,me,K_GATHER,root,n*(int)dts(d),0,0,s,len,0,0);
  if(me==root){ if(rn*dts(rd)!=len) sim_error("size","gather lengths differ"); cwait(x,k); for(int i=0;i<x->n;++i) memcpy((char*)r+i*len,k->in[i],len);} else if(colsync) cwait(x,k); return 0; }
int MPI_Gatherv(const void*s,int n,MPI_Datatype d,void*r,const int*rn,const int*dis,MPI_Datatype rd,int root,MPI_Comm c){ ENTER("Gatherv"); struct coll*k=join(x,me,K_GATHERV,root,0,0,0,s,n*dts(d),0,0);
  if(me==root){ cwait(x,k); for(int i=0;i<x->n;++i){ if(k->inlen[i]!=rn[i]*dts(rd)) sim_error("size","gatherv"); else memcpy((char*)r+dis[i]*dts(rd),k->in[i],k->inlen[i]);} } else if(colsync) cwait(x,k); return 0; }
int MPI_Allgather(const void*s,int n,MPI_Datatype d,void*r,int rn,MPI_Datatype rd,MPI_Comm c){ ENTER("Allgather"); size_t len=rn*dts(rd); if(s==MPI_IN_PLACE) s=(char*)r+me*len; (void)n;(void)d;
  struct coll*k=join(x,me,K_ALLG,0,(int)len,0,0,s,len,0,0); cwait(x,k); for(int i=0;i<x->n;++i) memcpy((char*)r+i*len,k->in[i],len); return 0; }
int MPI_Allgatherv(const void*s,int n,MPI_Datatype d,void*r,const int*rn,const int*dis,MPI_Datatype rd,MPI_Comm c){ ENTER("Allgatherv"); if(s==MPI_IN_PLACE) s=(char*)r+dis[me]*dts(rd),n=rn[me],d=rd;
  struct coll*k=join(x,me,K_ALLGV,0,0,0,0,s,n*dts(d),0,0); cwait(x,k); for(int i=0;i<x->n;++i) { if(k->inlen[i]!=rn[i]*dts(rd)) sim_error("size","allgatherv"); else memcpy((char*)r+dis[i]*dts(rd),k->in[i],k->inlen[i]);} return 0; }
int MPI_Scatter(const void*s,int n,MPI_Datatype d,void*r,int rn,MPI_Datatype rd,int root,MPI_Comm c){ ENTER("Scatter"); size_t len=rn*dts(rd); (void)n;(void)d; struct coll*k=join(x,me,K_SCATTER,root,(int)len,0,0,s,me==root?len*x->n:0,0,0);
  struct cw w={x,k,0,root}; if(colsync) cwait(x,k); else block_on(one_in,&w); if(r!=MPI_IN_PLACE) memcpy(r,(char*)k->in[root]+me*len,len); return 0; }
int MPI_Alltoall(const void*s,int n,MPI_Datatype d,void*r,int rn,MPI_Datatype rd,MPI_Comm c){ ENTER("Alltoall"); size_t len=rn*dts(rd); (void)n;(void)d; struct coll*k=join(x,me,K_A2A,0,(int)len,0,0,s==MPI_IN_PLACE?r:s,len*x->n,0,0); cwait(x,k); R[cur].sent+=x->n-1;
  for(int i=0;i<x->n;++i){ R[cur].sto[x->w[i]]++; memcpy((char*)r+i*len,(char*)k->in[i]+me*len,len);} return 0; }
struct a2av { int n[MAXNP], d[MAXNP]; };
int MPI_Alltoallv(const void*s,const int*sn,const int*sd,MPI_Datatype d,void*r,const int*rn,const int*rdis,MPI_Datatype rd,MPI_Comm c){ ENTER("Alltoallv"); struct a2av h; size_t tot=0; char*b; for(int i=0;i<x->n;++i) h.n[i]=sn[i]*dts(d),h.d[i]=tot,tot+=h.n[i];
  b=malloc(sizeof h+tot); memcpy(b,&h,sizeof h); for(int i=0;i<x->n;++i) memcpy(b+sizeof h+h.d[i],(const char*)s+sd[i]*dts(d),h.n[i]);
  struct coll*k=join(x,me,K_A2AV,0,0,0,0,b,sizeof h+tot,0,0); free(b); cwait(x,k); R[cur].sent+=x->n-1;
  for(int i=0;i<x->n;++i){ struct a2av*g=k->in[i]; R[cur].sto[x->w[i]]++; if(g->n[me]!=(int)(rn[i]*dts(rd))) sim_error("size","alltoallv"); else memcpy((char*)r+rdis[i]*dts(rd),(char*)k->in[i]+sizeof h+g->d[me],g->n[me]); } return 0; }
int MPI_Reduce(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,int root,MPI_Comm c){ ENTER("Reduce"); size_t len=n*dts(d); struct coll*k=join(x,me,K_RED,root,n,d,op,s==MPI_IN_PLACE?r:s,len,0,0);
  if(me==root){ cwait(x,k); reduce_into(x,k,r,0,x->n);} else if(colsync) cwait(x,k); return 0; }
int MPI_Allreduce(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ ENTER("Allreduce"); size_t len=n*dts(d); if(s!=MPI_IN_PLACE&&n>0&&(const char*)s<(char*)r+len&&(char*)r<(const char*)s+len) sim_error("alias","allreduce buffers overlap");
  struct coll*k=join(x,me,K_ALLR,0,n,d,op,s==MPI_IN_PLACE?r:s,len,0,0); cwait(x,k); reduce_into(x,k,r,0,x->n); return 0; }
int MPI_Scan(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ ENTER("Scan"); struct coll*k=join(x,me,K_SCAN,0,n,d,op,s==MPI_IN_PLACE?r:s,n*dts(d),0,0); struct cw w={x,k,me,0}; block_on(prefix_in,&w); reduce_into(x,k,r,0,me+1); return 0; }
int MPI_Exscan(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ ENTER("Exscan"); struct coll*k=join(x,me,K_EXSCAN,0,n,d,op,s==MPI_IN_PLACE?r:s,n*dts(d),0,0); struct cw w={x,k,me-1,0}; if(me) { block_on(prefix_in,&w); reduce_into(x,k,r,0,me);} return 0; }
static int mknew(struct coll*k,int slot,int n,const int*w){ if(!k->newctx[slot]) k->newctx[slot]=newctx(n,w); return k->newctx[slot]; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*o){ ENTER("Comm_dup"); struct coll*k=join(x,me,K_DUP,0,0,0,0,0,0,0,0); if(pol!=0||colsync) cwait(x,k); *o=mknew(k,0,x->n,x->w); R[cur].comms++; return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*o){ ENTER("Comm_split"); struct coll*k=join(x,me,K_SPLIT,0,0,0,0,0,0,color,key); int w[MAXNP],id[MAXNP],n=0,i,j,first=-1; cwait(x,k);
  if(color==MPI_UNDEFINED){ *o=MPI_COMM_NULL; return 0; }
  for(i=0;i<x->n;++i) if(k->ia[i]==color){ if(first<0) first=i; for(j=n;j>0&&k->ib[id[j-1]]>k->ib[i];--j) id[j]=id[j-1]; id[j]=i; ++n; }
  for(i=0;i<n;++i) w[i]=x->w[id[i]]; *o=mknew(k,first,n,w); R[cur].comms++; return 0; }
int MPI_Comm_free(MPI_Comm*c){ int me; struct ctx*x=ctx_of(*c,&me,"Comm_free"); if(*c<3+MAXNP) sim_error("comm","freeing a predefined communicator"); x->live[me]=0; R[cur].comms--; *c=MPI_COMM_NULL; return 0; }
int MPI_Comm_rank(MPI_Comm c,int*r){ int me; ctx_of(c,&me,"Comm_rank"); *r=me; return 0; }
int MPI_Comm_size(MPI_Comm c,int*s){ int me; *s=ctx_of(c,&me,"Comm_size")->n; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return f; } MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; }
int MPI_Comm_set_errhandler(MPI_Comm c,MPI_Errhandler e){ (void)c;(void)e; return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ int m,i; struct ctx*x=ctx_of(a,&m,"compare"),*y=ctx_of(b,&m,"compare"); if(x==y){*r=MPI_IDENT;return 0;} *r=MPI_UNEQUAL; if(x->n==y->n){ *r=MPI_CONGRUENT; for(i=0;i<x->n;++i) if(x->w[i]!=y->w[i]) *r=MPI_UNEQUAL; } return 0; }
static int start_iall(int kind,const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c,MPI_Request*q){ ENTER("Iallreduce"); size_t len=n*dts(d); struct req z={0};
  if(s!=MPI_IN_PLACE&&n>0&&(const char*)s<(char*)r+len&&(char*)r<(const char*)s+len) sim_error("alias","iallreduce buffers overlap");
  struct coll*k=join(x,me,kind,0,n,d,op,s==MPI_IN_PLACE?r:s,len,0,0); z.kind=3;z.c=k;z.x=x;z.me=me;z.out=r;z.len=len; if(s!=MPI_IN_PLACE){ z.in=s; z.sum=fnv(s,len);} z.orig=0; if(len) memset(r,POISON,len); *q=newreq(z); return 0; }
int MPI_Iallreduce(const void*s,void*r,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c,MPI_Request*q){ return start_iall(K_IALLR,s,r,n,d,op,c,q); }
int MPI_Ibarrier(MPI_Comm c,MPI_Request*q){ static char dummy; return start_iall(K_IBAR,&dummy,&dummy+1,0,MPI_BYTE,MPI_SUM,c,q); }

/* ---------- completion ---------- */
static int req_done(struct req*q){ if(q->kind==1) return q->s->done && (!q->s->sync||q->s->m); if(q->kind==2) return q->r->done; return q->c->arrived==q->x->n; }
static int req_done_v(void*a){ return req_done(a); }
static void complete(MPI_Request*h,MPI_Status*st){ struct req*q=getreq(*h); if(st) memset(st,0,sizeof*st);
  if(q->kind==1){ check_send(q->s); q->s->freed=1; }
  if(q->kind==2&&st) st->MPI_SOURCE=q->r->rsrc,st->MPI_TAG=q->r->rtag,st->len_=q->r->rlen;
  if(q->kind==3){ if(q->in&&fnv(q->in,q->len)!=q->sum) sim_error("sendbuf","input of pending reduction modified"); { const unsigned char*b=q->out; size_t i; for(i=0;i<q->len;++i) if(b[i]!=POISON){ sim_error("recvbuf","output of pending reduction accessed"); break; } } if(q->c->kind==K_IALLR) reduce_into(q->x,q->c,q->out,0,q->x->n); }
  Q[*h-0x4000000]=0; free(q); R[cur].reqs--; *h=MPI_REQUEST_NULL; }
int MPI_Wait(MPI_Request*h,MPI_Status*st){ enter(); if(*h==MPI_REQUEST_NULL) return 0; block_on(req_done_v,getreq(*h)); complete(h,st); return 0; }
struct wa { int n; MPI_Request*h; };
static int all_done(void*a){ struct wa*w=a; for(int i=0;i<w->n;++i) if(w->h[i]!=MPI_REQUEST_NULL&&!req_done(getreq(w->h[i]))) return 0; return 1; }
static int any_done(void*a){ struct wa*w=a; int live=0; for(int i=0;i<w->n;++i) if(w->h[i]!=MPI_REQUEST_NULL){ live=1; if(req_done(getreq(w->h[i]))) return 1; } return !live; }
int MPI_Waitall(int n,MPI_Request*h,MPI_Status*st){ struct wa w={n,h}; enter(); for(int i=0;i<n;++i) if(h[i]!=MPI_REQUEST_NULL){ getreq(h[i]); for(int j=0;j<i;++j) if(h[j]==h[i]) sim_error("request","duplicate request"); } block_on(all_done,&w); for(int i=0;i<n;++i) if(h[i]!=MPI_REQUEST_NULL) complete(&h[i],st?&st[i]:0); return 0; }
int MPI_Waitany(int n,MPI_Request*h,int*idx,MPI_Status*st){ struct wa w={n,h}; int k=0,c[1024]; enter(); block_on(any_done,&w); *idx=MPI_UNDEFINED; for(int i=0;i<n&&k<1024;++i) if(h[i]!=MPI_REQUEST_NULL&&req_done(getreq(h[i]))) c[k++]=i; if(k){ *idx=c[rnd64()%k]; complete(&h[*idx],st);} return 0; }
int MPI_Waitsome(int n,MPI_Request*h,int*cnt,int*idx,MPI_Status*st){ struct wa w={n,h}; int k=0,live=0; enter(); block_on(any_done,&w); for(int i=0;i<n;++i) if(h[i]!=MPI_REQUEST_NULL){ live=1; if(req_done(getreq(h[i]))){ complete(&h[i],st?&st[k]:0); idx[k++]=i; } } *cnt=live?k:MPI_UNDEFINED; return 0; }
int MPI_Test(MPI_Request*h,int*f,MPI_Status*st){ enter(); if(pol!=1&&pol!=3) progress_one(); *f=1; if(*h==MPI_REQUEST_NULL) return 0; if(req_done(getreq(*h))) complete(h,st); else { *f=0; R[cur].st=READY; yield_(); } return 0; }
int MPI_Testall(int n,MPI_Request*h,int*f,MPI_Status*st){ struct wa w={n,h}; enter(); progress_one(); *f=all_done(&w); if(*f) for(int i=0;i<n;++i) { if(h[i]!=MPI_REQUEST_NULL) complete(&h[i],st?&st[i]:0); } else { R[cur].st=READY; yield_(); } return 0; }
int MPI_Request_free(MPI_Request*h){ getreq(*h); *h=MPI_REQUEST_NULL; R[cur].reqs--; return 0; }
static int isend_(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q,int sync){ struct req z={0}; enter(); if(dst==MPI_PROC_NULL){*q=0;return 0;} z.kind=1; z.s=post_send(b,n*dts(d),dst,tag,c,sync,"Isend"); *q=newreq(z); maybe_progress(); return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ return isend_(b,n,d,dst,tag,c,q,0); }
int MPI_Issend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ return isend_(b,n,d,dst,tag,c,q,1); }
int MPI_Irsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ return isend_(b,n,d,dst,tag,c,q,0); }
int MPI_Irecv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Request*q){ struct req z={0}; enter(); if(src==MPI_PROC_NULL){*q=0;return 0;} z.kind=2; z.r=post_recv(b,n*dts(d),src,tag,c,"Irecv"); *q=newreq(z); maybe_progress(); return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ MPI_Request q; isend_(b,n,d,dst,tag,c,&q,0); return MPI_Wait(&q,0); }
int MPI_Ssend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ MPI_Request q; isend_(b,n,d,dst,tag,c,&q,1); return MPI_Wait(&q,0); }
int MPI_Rsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ return MPI_Send(b,n,d,dst,tag,c); }
int MPI_Recv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Status*st){ MPI_Request q; MPI_Irecv(b,n,d,src,tag,c,&q); return MPI_Wait(&q,st); }
int MPI_Sendrecv(const void*s,int sn,MPI_Datatype sd,int dst,int stag,void*r,int rn,MPI_Datatype rd,int src,int rtag,MPI_Comm c,MPI_Status*st){ MPI_Request q[2]; MPI_Status t[2]; MPI_Irecv(r,rn,rd,src,rtag,c,&q[0]); MPI_Isend(s,sn,sd,dst,stag,c,&q[1]); MPI_Waitall(2,q,t); if(st) *st=t[0]; return 0; }
static struct msg *find_probe(int src,int tag,MPI_Comm c){ int me; ctx_of(c,&me,"Probe"); int id=c==MPI_COMM_SELF?3+cur:c; for(int i=0;i<nS;++i) if(!S[i]->m&&S[i]->ctx==id&&S[i]->dst==me&&(src==MPI_ANY_SOURCE||src==S[i]->src)&&(tag==MPI_ANY_TAG||tag==S[i]->tag)) return S[i]; return 0; }
int MPI_Iprobe(int src,int tag,MPI_Comm c,int*f,MPI_Status*st){ struct msg*m; enter(); m=find_probe(src,tag,c); *f=!!m; if(m&&st) st->MPI_SOURCE=m->src,st->MPI_TAG=m->tag,st->len_=m->len; if(!m){ R[cur].st=READY; yield_(); } return 0; }
struct pa { int src,tag; MPI_Comm c; };
static int probed(void*a){ struct pa*p=a; return find_probe(p->src,p->tag,p->c)!=0; }
int MPI_Probe(int src,int tag,MPI_Comm c,MPI_Status*st){ struct pa p={src,tag,c}; struct msg*m; enter(); block_on(probed,&p); m=find_probe(src,tag,c); if(st) st->MPI_SOURCE=m->src,st->MPI_TAG=m->tag,st->len_=m->len; return 0; }
int MPI_Get_count(const MPI_Status*st,MPI_Datatype d,int*n){ *n=st->len_/dts(d); return 0; }
int MPI_Type_size(MPI_Datatype d,int*n){ *n=dts(d); return 0; }
int MPI_Init(int*a,char***b){ (void)a;(void)b; return 0; } int MPI_Init_thread(int*a,char***b,int r,int*p){ (void)a;(void)b; *p=r; return 0; } int MPI_Finalize(void){ return 0; }
int MPI_Initialized(int*f){ *f=1; return 0; } int MPI_Finalized(int*f){ *f=0; return 0; }
int MPI_Get_processor_name(char*s,int*n){ strcpy(s,"sim"); *n=3; return 0; }
int MPI_Abort(MPI_Comm c,int e){ (void)c; (void)e; sim_emit("{\"e\":\"exit\",\"r\":%d,\"st\":1}\n",cur); finish(0); return 0; }
/* clock: successive pairs of readings show the planned durations */
static double plan[MAXNP][16]; static int nplan[MAXNP]; static double now[MAXNP];
void sim_time_plan(int n,const double*d){ nplan[cur]=n>16?16:n; memcpy(plan[cur],d,nplan[cur]*sizeof*d); R[cur].wt=0; }
double MPI_Wtime(void){ struct rank*r=&R[cur]; long k=r->wt++; if(k&1){ long j=k/2; now[cur]+= j<nplan[cur]?plan[cur][j]:1e-3; } else now[cur]+=1e-6; return now[cur]; }
double MPI_Wtick(void){ return 1e-9; }

/* ---------- running a scenario ---------- */
typedef void main_fn(void); static main_fn *rmain[MAXNP];
static void tramp(void){ R[cur].st=READY; rmain[cur](); R[cur].st=DONE; for(;;) yield_(); }
static void on_sig(int s){ sim_emit(s==SIGPROF||s==SIGALRM?"\n{\"e\":\"hang\",\"r\":%d}\n":"\n{\"e\":\"crash\",\"r\":%d}\n",cur); tflush(); _exit(s==SIGPROF||s==SIGALRM?7:0); }
static void run(void){ int i,order; stack_t ss; struct sigaction sa; struct itimerval it={{0,0},{10,0}}; { struct rlimit ml={4ul<<30,4ul<<30}; setrlimit(RLIMIT_AS,&ml); }
  memset(&sa,0,sizeof sa); ss.ss_sp=malloc(1<<16); ss.ss_size=1<<16; ss.ss_flags=0; sigaltstack(&ss,0); sa.sa_handler=on_sig; sa.sa_flags=SA_ONSTACK;
  int sg[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGPROF}; for(i=0;i<6;++i) sigaction(sg[i],&sa,0); setitimer(ITIMER_PROF,&it,0);
  tcap=1<<22; tb=malloc(tcap); tn=0;
  capC=0; nC=0; { int w[MAXNP]; for(i=0;i<MAXNP;++i) w[i]=i; newctx(0,w); newctx(np,w); newctx(0,w); for(i=0;i<MAXNP;++i) newctx(1,&i); }
  for(i=0;i<np;++i){ getcontext(&R[i].ctx); R[i].stack=mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_STACK,-1,0); R[i].ctx.uc_stack.ss_sp=R[i].stack; R[i].ctx.uc_stack.ss_size=STACK; R[i].ctx.uc_link=&main_ctx; makecontext(&R[i].ctx,tramp,0); R[i].st=READY; }
  order=0;
  for(;;){ int cand[MAXNP],k=0,alive=0;
    for(i=0;i<np;++i){ if(R[i].st==DONE) continue; alive++; if(R[i].st==READY) cand[k++]=i; else { cur=i; if(R[i].cond(R[i].arg)) cand[k++]=i; } }
    if(!alive) break;
    if(++steps>20000000){ sim_emit("{\"e\":\"hang\",\"r\":-1}\n"); finish(0); }
    if(!k){ cur=-1; if(progress_one()) continue; sim_emit("{\"e\":\"deadlock\",\"r\":-1}\n"); finish(0); }
    if(pol==0){ for(i=0;i<k;++i) if(cand[i]>=order) break; if(i==k) i=0; cur=cand[i]; order=cur; }
    else if(pol==4) cur=cand[k-1]; else if(pol==5) cur=cand[0];
    else cur=cand[rnd64()%k];
    if(pol==0) order=cur;
    swapcontext(&main_ctx,&R[cur].ctx);
    if(pol==0&&R[cur].st!=READY) order=cur+1; }
  cur=0; sim_heapcheck();
  { int um=0; long lc=0,lq=0; gc(); for(i=0;i<nS;++i) if(!S[i]->m) um++; for(i=0;i<np;++i) lc+=R[i].comms,lq+=R[i].reqs; sim_emit("{\"e\":\"end\",\"r\":-1,\"unmatched\":%d,\"rcv\":%d,\"comms\":%ld,\"reqs\":%ld}\n",um,nV,nompi?-1:lc,lq); }
  finish(0); }

int main(int argc,char**argv){ FILE*f; char*line=0; size_t cap=0; int i; char p[4096]; long len; char*data;
  if(argc<5) return 2;
  f=fopen(argv[1],"rb"); if(!f) return 2; fseek(f,0,SEEK_END); len=ftell(f); rewind(f); data=malloc(len); if(fread(data,1,len,f)!=(size_t)len) return 2; fclose(f);
  int need=1; f=fopen(argv[3],"r"); if(!f) return 2; while(getline(&line,&cap,f)>0){ int n; if(sscanf(line,"S %*s np=%d",&n)==1&&n>need) need=n; } rewind(f); if(need>MAXNP) return 2;
  for(i=0;i<need;++i){ FILE*g; void*h; snprintf(p,sizeof p,"%s/rank%d.%d.so",argv[2],i,(int)getpid()); g=fopen(p,"wb"); if(!g||fwrite(data,1,len,g)!=(size_t)len) return 2; fclose(g); h=dlopen(p,RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"%s\n",dlerror()); return 2; } unlink(p); rmain[i]=(main_fn*)dlsym(h,"rank_main"); nompi=dlsym(h,"vf_nompi")!=0; if(!rmain[i]) return 2; }
  outfd=open(argv[4],O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(outfd<0) return 2;
  { int dn=open("/dev/null",O_WRONLY); dup2(dn,1); close(dn); }
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  while(getline(&line,&cap,f)>0){ long sd; int r=-1; char*txt[MAXNP]; size_t tl[MAXNP]; 
    if(line[0]!='S'||line[1]!=' ') continue;
    fillbyte=0xA5; colsync=1; eager=0; pol=1; sd=1; np=1;
    sscanf(line,"S %127s np=%d seed=%ld pol=%d eager=%ld colsync=%d fill=%i",sid,&np,&sd,&pol,&eager,&colsync,&fillbyte); rng=(uint64_t)sd*0x9E3779B97F4A7C15ull+0x1234567ull; if(!rng) rng=1; for(i=0;i<5;++i) rnd64();
    for(i=0;i<np;++i) txt[i]=calloc(1,1),tl[i]=0;
    while(getline(&line,&cap,f)>0){ if(line[0]=='E'&&line[1]=='\n') break; if(line[0]=='R'&&line[1]==' '){ r=atoi(line+2); continue; } if(r<0||r>=np) continue; size_t n=strlen(line); txt[r]=realloc(txt[r],tl[r]+n+1); memcpy(txt[r]+tl[r],line,n+1); tl[r]+=n; }
    for(i=0;i<np;++i) prog[i]=txt[i];
    { char h[512]; int n=snprintf(h,sizeof h,"{\"e\":\"scn\",\"r\":-1,\"id\":\"%s\",\"np\":%d}\n",sid,np); if(write(outfd,h,n)!=n) return 2; }
    pid_t pid=fork(); if(pid<0) return 2; if(!pid){ run(); _exit(0); }
    int st; waitpid(pid,&st,0); if(WIFEXITED(st)&&WEXITSTATUS(st)==7){ static int stuck; if(++stuck>=3) break; }
    else if(!WIFEXITED(st)||WEXITSTATUS(st)){ char h[]="\n{\"e\":\"crash\",\"r\":-1}\n"; if(write(outfd,h,sizeof h-1)<0) return 2; }
    for(i=0;i<np;++i) free(txt[i]); }
  return 0; }
