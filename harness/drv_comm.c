/* communicators: creation, point-to-point messages, barriers; a sum through a gather-scatter handle */
#include "drv.h"
struct pq { comm_req req; int used,recv,n; unsigned char *p; }; static struct pq Q[NSLOT*4];
static unsigned char *box(int n,int fill){ unsigned char *p=dmalloc(n+16); memset(p,fill,n); memset(p+n,0x3b,16); return p; }
static int intact(const unsigned char *p,int n){ int i; for(i=0;i<16;++i) if(p[n+i]!=0x3b) return 0; return 1; }
static void em_bytes(const unsigned char *p,int n){ int i; EM(",\"x\":["); for(i=0;i<n;++i) EM(i?",%d":"%d",p[i]); EM("]"); }
static void fin(int w){ struct pq *q=&Q[w]; if(q->recv){ EM("{\"e\":\"dr\",\"r\":%d,\"w\":%d,\"gap\":%d",ME,w,intact(q->p,q->n)); em_bytes(q->p,q->n); EM("}\n"); } else EM("{\"e\":\"ds\",\"r\":%d,\"w\":%d}\n",ME,w); dfree(q->p); q->used=0; }
int cmd_cm(const char *c){
  if(!strcmp(c,"mk")){ int k=ti(), from, col, key, lab, np; char how[16]; struct comm w,*f; int fkey=-1; MPI_Fint fc; strcpy(how,tok()); from=ti(); col=ti(); key=ti(); lab=ti();
    if(from<0){ w.id=sim_rank(); w.np=sim_np(); w.c=MPI_COMM_WORLD; f=&w; } else f=&DC[from].c, fkey=DC[from].key;
    EM("{\"e\":\"mB\",\"r\":%d,\"p\":%d,\"kind\":\"%s\",\"col\":%d,\"key\":%d}\n",ME,fkey,how,col,key);
    if(!strcmp(how,"init")) comm_init(&DC[k].c,f->c); else if(!strcmp(how,"dup")) comm_dup(&DC[k].c,f); else if(!strcmp(how,"split")) comm_split(f,col,key,&DC[k].c);
    else { fc=MPI_Comm_c2f(f->c); np=f->np; comm_init_check(&DC[k].c,fc,(uint)np); }
    DC[k].key=k*32+lab; DC[k].used=1; EM("{\"e\":\"mE\",\"r\":%d,\"c\":%d,\"id\":%d,\"np\":%d}\n",ME,DC[k].key,(int)DC[k].c.id,(int)DC[k].c.np); return 1; }
  if(!strcmp(c,"mkbad")){ int from=ti(), np=ti(); struct comm d; EM("{\"e\":\"raw\",\"r\":%d,\"hk\":-1,\"hv\":-1,\"bad\":1}\n",ME); comm_init_check(&d,MPI_Comm_c2f(DC[from].c.c),(uint)np); EM("{\"e\":\"rawE\",\"r\":%d}\n",ME); return 1; }
  if(!strcmp(c,"ps")||!strcmp(c,"bs")){ int w=ti(), k=ti(), d=ti(), tag=ti(), n=ti(), i; struct pq *q=&Q[w]; q->used=1; q->recv=0; q->n=n; q->p=box(n,0); for(i=0;i<n;++i) q->p[i]=ti();
    EM("{\"e\":\"ps\",\"r\":%d,\"w\":%d,\"c\":%d,\"q\":%d,\"tag\":%d",ME,w,DC[k].key,d,tag); em_bytes(q->p,n); EM("}\n");
    if(c[0]=='p') comm_isend(&q->req,&DC[k].c,q->p,n,d,tag); else { comm_send(&DC[k].c,q->p,n,d,tag); fin(w); } return 1; }
  if(!strcmp(c,"pr")||!strcmp(c,"br")){ int w=ti(), k=ti(), s=ti(), tag=ti(), n=ti(); struct pq *q=&Q[w]; q->used=1; q->recv=1; q->n=n; q->p=box(n,0x77);
    EM("{\"e\":\"pr\",\"r\":%d,\"w\":%d,\"c\":%d,\"q\":%d,\"tag\":%d}\n",ME,w,DC[k].key,s,tag);
    if(c[0]=='p') comm_irecv(&q->req,&DC[k].c,q->p,n,s,tag); else { comm_recv(&DC[k].c,q->p,n,s,tag); fin(w); } return 1; }
  if(!strcmp(c,"pw")){ comm_req a[64]; int w[64],n=0,i; while(more()&&n<64){ w[n]=ti(); a[n]=Q[w[n]].req; ++n; } comm_wait(a,n); for(i=0;i<n;++i) fin(w[i]); return 1; }
  if(!strcmp(c,"bar")){ int w=ti(), k=ti(); EM("{\"e\":\"aB\",\"r\":%d,\"c\":%d,\"w\":%d,\"kind\":\"bar\",\"op\":0,\"en\":0,\"root\":0,\"in\":[]}\n",ME,DC[k].key,w); comm_barrier(&DC[k].c); EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":1,\"out\":[]}\n",ME,w); return 1; }
  if(!strcmp(c,"gsum")){ int w=ti(), k=ti(), me=ti(), v=ti(), i; slong id[3]={7,-9,0}; int x[3]; struct gs_data *g; x[0]=v; x[1]=v; x[2]=v; (void)i;
    EM("{\"e\":\"aB\",\"r\":%d,\"c\":%d,\"w\":%d,\"kind\":\"allred\",\"op\":0,\"en\":0,\"root\":0,\"in\":[%d]}\n",ME,DC[k].key,w,v);
    g=gs_setup(id,3,&DC[k].c,0,me,0); gs(x,gs_int,gs_add,0,g,0); gs_free(g);
    EM("{\"e\":\"aE\",\"r\":%d,\"w\":%d,\"gap\":%d,\"out\":[%d]}\n",ME,w,x[2]==v,x[0]); return 1; }
  if(!strcmp(c,"needs")){ extern const char *vf_needs[]; int i; EM("{\"e\":\"needs\",\"r\":%d,\"x\":[",ME); for(i=0;vf_needs[i];++i) EM(i?",\"%s\"":"\"%s\"",vf_needs[i]); EM("]}\n"); return 1; }
  return 0; }
