#include "drv.h"
#ifndef GSLIB_USE_MPI
int vf_nompi=1;
#endif
static char *line_p; static char tbuf[64];
struct dcomm DC[NSLOT]; struct dbuf DB[16];
const unsigned dsz[5]={sizeof(double),sizeof(float),sizeof(int),sizeof(long),sizeof(long long)};
const char *tok(void){ int n=0; while(*line_p==' ') ++line_p; while(*line_p&&*line_p!=' '&&*line_p!='\n'){ if(n<63) tbuf[n++]=*line_p; ++line_p; } tbuf[n]=0; return tbuf; }
int more(void){ while(*line_p==' ') ++line_p; return *line_p&&*line_p!='\n'; }
int ti(void){ return atoi(tok()); } long long tll(void){ return strtoll(tok(),0,10); } double td(void){ return strtod(tok(),0); }
void em_ints(const char *name,const int *v,int n){ int i; EM(",\"%s\":[",name); for(i=0;i<n;++i) EM(i?",%d":"%d",v[i]); EM("]"); }
void em_uints(const char *name,const uint *v,int n){ int i; EM(",\"%s\":[",name); for(i=0;i<n;++i) EM(i?",%d":"%d",(int)v[i]); EM("]"); }
int xdom(int d){ if(d==4&&!(0 GS_WHEN_LONG_LONG(+1))) d=3; if(d==2&&sizeof(sint)>4) d=SDOM; return d; }
void em_sent(void){ int i; EM(",\"m\":["); for(i=0;i<sim_np();++i) EM(i?",%d":"%d",sim_sent_to(i)); EM("]"); }
buffer *getbuf(int k){ if(k<0) return 0; if(!DB[k].used){ DB[k].used=1; buffer_init(&DB[k].b,8); } return &DB[k].b; }
void put_val(int dom,void *p,size_t i,long long v,int s){
#define MX(MAX,MIN) (v==MAXV?(MAX):v==-(long long)MAXV?(MIN):0)
  int x = v==MAXV||v==-(long long)MAXV;
  switch(dom){ case 0: ((double*)p)[i]= x?MX(DBL_MAX,-DBL_MAX):ldexp((double)v,s); break;
    case 1: ((float*)p)[i]= x?(float)MX(FLT_MAX,-FLT_MAX):(float)ldexp((double)v,s); break;
    case 2: ((int*)p)[i]= x?MX(INT_MAX,INT_MIN):(int)(v*(1ll<<s)); break;
    case 3: ((long*)p)[i]= x?MX(LONG_MAX,LONG_MIN):(long)(v*(1ll<<s)); break;
    case 4: ((long long*)p)[i]= x?MX(LLONG_MAX,LLONG_MIN):v*(1ll<<s); break; } }
static int lim(long long q){ return q>1900000000||q<-1900000000?BADV:(int)q; }
static int geti(long long x,long long mx,long long mn,int s,int mod){ if(x==mx) return MAXV; if(x==mn) return -MAXV; if(mod){ x%=MODP; return (int)(x<0?x+MODP:x); } if(x%(1ll<<s)) return BADV; return lim(x/(1ll<<s)); }
static int getd(double x,double mx,int s,int mod){ if(x==mx) return MAXV; if(x==-mx) return -MAXV; x=ldexp(x,-s); if(!(fabs(x)<9e15)||x!=floor(x)) return BADV; if(mod){ x=fmod(x,MODP); return (int)(x<0?x+MODP:x);} return fabs(x)>1.9e9?BADV:(int)x; }
int get_val(int dom,const void *p,size_t i,int s,int mod){ switch(dom){ case 0: return getd(((double*)p)[i],DBL_MAX,s,mod); case 1: return getd(((float*)p)[i],FLT_MAX,s,mod);
  case 2: return geti(((int*)p)[i],INT_MAX,INT_MIN,s,mod); case 3: return geti(((long*)p)[i],LONG_MAX,LONG_MIN,s,mod); default: return geti(((long long*)p)[i],LLONG_MAX,LLONG_MIN,s,mod); } }

static int cmd_common(const char *c){
  if(!strcmp(c,"comm")){ int k=ti(); char how[16]; strcpy(how,tok()); int from=ti();
    struct comm w; struct comm *f; int fkey=0; if(from<0){ w.id=sim_rank(); w.np=sim_np(); w.c=MPI_COMM_WORLD; f=&w; } else f=&DC[from].c, fkey=DC[from].key%32;
    if(!strcmp(how,"init")) comm_init(&DC[k].c,f->c), DC[k].key=k*32+fkey;
    else if(!strcmp(how,"dup")) comm_dup(&DC[k].c,f), DC[k].key=k*32+fkey;
    else { int col=ti(), key=ti(), lab=ti(); comm_split(f,col,key,&DC[k].c); DC[k].key=k*32+lab; }
    DC[k].used=1; EM("{\"e\":\"comm\",\"r\":%d,\"c\":%d,\"id\":%d,\"np\":%d}\n",ME,DC[k].key,(int)DC[k].c.id,(int)DC[k].c.np); return 1; }
  if(!strcmp(c,"cfree")){ int k=ti(); EM("{\"e\":\"cfree\",\"r\":%d,\"c\":%d}\n",ME,DC[k].key); comm_free(&DC[k].c); DC[k].used=0; return 1; }
  if(!strcmp(c,"barrier")){ comm_barrier(&DC[ti()].c); return 1; }
  if(!strcmp(c,"tplan")){ double d[16]; int n=0; while(more()&&n<16) d[n++]=td(); sim_time_plan(n,d); return 1; }
  if(!strcmp(c,"pause")){ int n=ti(); while(n-->0) sim_pause(); return 1; }
  if(!strcmp(c,"bfree")){ int k=ti(); if(DB[k].used) sim_free(DB[k].b.ptr), DB[k].used=0; return 1; }
  if(!strcmp(c,"live")){ int lab=ti(); EM("{\"e\":\"live\",\"r\":%d,\"l\":%d,\"comms\":%ld,\"reqs\":%ld,\"bytes\":%ld}\n",ME,lab,sim_live_comms(),sim_live_reqs(),sim_live_bytes()); return 1; }
  if(!strcmp(c,"heap")){ sim_heapcheck(); return 1; }
  return 0; }
void rank_main(void){ char *text,*l; text=dmalloc(strlen(sim_program())+1); strcpy(text,sim_program()); l=text; 
  sim_on_exit(gs_dump_all);
  while(*l){ char *e=strchr(l,'\n'),c[64]; if(!e) e=l+strlen(l); line_p=l; strcpy(c,tok());
    if(c[0]&&!cmd_common(c)&&!cmd_gs(c)
      &&!(cmd_mv&&cmd_mv(c))&&!(cmd_srt&&cmd_srt(c))&&!(cmd_fp&&cmd_fp(c))&&!(cmd_num&&cmd_num(c))&&!(cmd_cm&&cmd_cm(c))
      ) sim_error("driver","unknown command %s",c);
    l=*e?e+1:e; }
  dfree(text); }
