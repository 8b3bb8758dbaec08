from mkseed import mkseed
P='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <mpi.h>
#include "gslib.h"
static int bad=0;
static void finish(void){ int g; MPI_Allreduce(&bad,&g,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Finalize(); exit(g?1:0); }
'''
# ---------------------------------------------------------------- sorting
mkseed("s01-zero-digit","S01","at least 256 keys with a byte that is zero in all of them below one that is not",
 "the radix sort stops at the first byte position that is zero in every key, higher bytes are not sorted",
 [("sort_imp.h","} while(bitorkey>>=DIGIT_BITS,sh+=DIGIT_BITS,c+=DIGIT_VALUES,sh!=VALUE_BITS);","} while(bitorkey>>=DIGIT_BITS,sh+=DIGIT_BITS,c+=DIGIT_VALUES,(bitorkey&DIGIT_MASK)&&sh!=VALUE_BITS);")],
 P+'''int main(int c,char**v){ buffer b=null_buffer; uint k[600],*p; ulong l[600]; int i,w; MPI_Init(&c,&v);
 for(w=0;w<2;++w){ for(i=0;i<600;++i) k[i]=((599-i)%7)*65536u+i%5, l[i]=(ulong)((599-i)%7)*65536u*65536u+i%5;
  p=w?sortp_long(&b,0,l,600,sizeof l[0]):sortp(&b,0,k,600,sizeof k[0]);
  for(i=1;i<600;++i){ if(w? l[p[i-1]]>l[p[i]] : k[p[i-1]]>k[p[i]]) bad=1; if((w? l[p[i-1]]==l[p[i]] : k[p[i-1]]==k[p[i]])&&p[i-1]>p[i]) bad=1; } }
 finish(); }''',1)
mkseed("s01-merge3-tie","S01","a run of three keys in the merge sort whose first and last are equal and whose middle one is smaller",
 "the merge sort swaps two equal keys, so the permutation is no longer stable",
 [("sort_imp.h","    else { if(VAL(v[2])<VAL(v[0])) p[0]=v[1],p[1]=v[2],p[2]=v[0];    \\","    else { if(VAL(v[2])<=VAL(v[0])) p[0]=v[1],p[1]=v[2],p[2]=v[0];   \\")],
 P+'''int main(int c,char**v){ buffer b=null_buffer; uint k[40],*p; double d[40]; int i,n,t,w; unsigned s=1; MPI_Init(&c,&v);
 for(t=0;t<400;++t){ n=3+t%30; for(i=0;i<n;++i) s=s*1103515245u+12345u, k[i]=(s>>16)%3, d[i]=k[i]; 
  for(w=0;w<2;++w){ p=w?sortp_double(&b,0,d,n,sizeof d[0]):sortp(&b,0,k,n,sizeof k[0]);
   for(i=1;i<n;++i) if(k[p[i-1]]>k[p[i]] || (k[p[i-1]]==k[p[i]]&&p[i-1]>p[i])) bad=1; } }
 finish(); }''',1)
mkseed("s02-sort4-keep","S02","a four-field sort with records that agree in the first three fields but not in the fourth",
 "the four-field sort forgets the order of the last field",
 [("sarray_sort.h","field4,is_long4, buf,0); \\\n  sarray_sort_field(T,A,n, field3,is_long3, buf,1); \\","field4,is_long4, buf,0); \\\n  sarray_sort_field(T,A,n, field3,is_long3, buf,0); \\")],
 P+'''struct r{ uint a; ulong b; double x; float y; uint tag; };
int main(int c,char**v){ buffer b=null_buffer; struct r A[50]; int i; MPI_Init(&c,&v);
 for(i=0;i<50;++i) A[i].a=i%2,A[i].b=(i/2)%2,A[i].x=(i/4)%2,A[i].y=50-i,A[i].tag=i;
 sarray_sort_4(struct r,A,50,a,0,b,1,x,3,y,2,&b);
 for(i=1;i<50;++i){ struct r*p=A+i-1,*q=A+i; int o=p->a!=q->a?p->a<q->a:p->b!=q->b?p->b<q->b:p->x!=q->x?p->x<q->x:p->y<=q->y; if(!o) bad=1; }
 finish(); }''',1)
mkseed("s02-perm-kept","S02","a permutation with a cycle, applied to two arrays one after the other",
 "permuting an array in place leaves marks in the permutation, the next array permuted with it is scrambled or left alone",
 [("sarray_sort.c","    if(pi<0) { fperm[i] = -pi-1; continue; }","    if(pi<0) { if(size>2*sizeof(double)) fperm[i] = -pi-1; continue; }")],
 P+'''int main(int c,char**v){ buffer b=null_buffer; uint p[5]={2,0,4,1,3}; double A[5]={10,11,12,13,14}; char w[64]; int i; uint q[5]={2,0,4,1,3}; MPI_Init(&c,&v);
 sarray_permute(double,A,5,p,w);
 for(i=0;i<5;++i){ if(p[i]!=q[i]) bad=1; if(A[i]!=10+q[i]) bad=1; }
 finish(); }''',1)
mkseed("s03-linear-growth","S03","many single appends to one array",
 "an array that is full grows by exactly what is asked for, so that n appends reallocate n times",
 [("mem.h","    max+=max/2+1;\n","    max+=max<256?max/2+1:1;\n")],
 P+'''int main(int c,char**v){ struct array a=null_array; int i,n=0; size_t m=0; MPI_Init(&c,&v);
 array_init(int,&a,1); for(i=0;i<20000;++i){ array_cat(int,&a,&i,1); if(a.max!=m) ++n,m=a.max; if(a.n!=(size_t)i+1||a.max<a.n) bad=1; }
 for(i=0;i<20000;++i) if(((int*)a.ptr)[i]!=i) bad=1;
 if(n>200) bad=1; finish(); }''',1)
# ---------------------------------------------------------------- movement
mkseed("m01-second-count","M01","an odd number of processes in a halving step, the process without a partner sending more than the receiver's own partner does",
 "room is made only for the larger of the two messages a process receives in one halving step",
 [("crystal.c","  sum = p->data.n + count[0] + count[1];\n  buffer_reserve(&p->data,sum*sizeof(uint));","  sum = p->data.n + count[0] + count[1];\n  buffer_reserve(&p->data,(sum-(count[0]<count[1]?count[0]:0))*sizeof(uint));")],
 P+'''int main(int c,char**v){ struct comm cm; struct crystal cr; uint *d,i,j,n=0; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD);
 for(j=1;j<400 && !bad;++j){ uint t,len=j*7; crystal_init(&cr,&cm);
  buffer_reserve(&cr.data,(cm.id==1?3*(3+len):6)*sizeof(uint)); d=cr.data.ptr; n=0;
  for(t=0;t<cm.np;++t){ uint l=(cm.id==1)?len:(cm.id+t)%3+1; if(cm.id==1||t==cm.np-1){ d[n++]=t,d[n++]=cm.id,d[n++]=l; for(i=0;i<l;++i) d[n++]=cm.id*1000+t; } }
  cr.data.n=n; crystal_router(&cr); if(cr.data.max<cr.data.n*sizeof(uint)) bad=1;
  { int g; MPI_Allreduce(&bad,&g,1,MPI_INT,MPI_MAX,MPI_COMM_WORLD); bad=g; } crystal_free(&cr); }
 finish(); }''',3)
mkseed("m02-split-message","M02","a process that sends large amounts in one halving step of the crystal router",
 "large messages are cut into pieces, so the number of messages depends on what is routed",
 [("crystal.c","  comm_isend(&req[0],&p->comm, p->work.ptr,send_n*sizeof(uint), targ,tag+1);\n  comm_wait(req,recvn+1);","  comm_isend(&req[0],&p->comm, p->work.ptr,send_n*sizeof(uint), targ,tag+1);\n  comm_wait(req,recvn+1);\n  if(sum>600) { /* let large exchanges settle before the next step */\n    char c0=0,c1=0,c2=0;\n    if(recvn)    comm_irecv(&req[1],&p->comm,&c1,1,targ,tag+1);\n    if(recvn==2) comm_irecv(&req[2],&p->comm,&c2,1,p->comm.id-1,tag+1);\n    comm_isend(&req[0],&p->comm,&c0,1,targ,tag+1);\n    comm_wait(req,recvn+1);\n  }"),
  ("crystal.c","  sum = p->data.n + count[0] + count[1];\n","  { uint g; sum = p->data.n + count[0] + count[1];\n    comm_allreduce(&p->comm,gs_sint,gs_max,&sum,1,&g); g=p->data.n + count[0] + count[1];\n    if(sum<=600) sum=g; else { uint t=sum; sum=g; g=t; } }\n"),
 ] if 0 else
 [("crystal.c","    if(id<bh) n=nl; else n-=nl,bl=bh;\n    tag += 2;","    if(p->work.max>65536) { /* balance: pass a large step's token on */\n      comm_req r; uint one=1; comm_isend(&r,&p->comm,&one,0,id,tag+1);\n      comm_recv(&p->comm,&one,0,id,tag+1); comm_wait(&r,1);\n    }\n    if(id<bh) n=nl; else n-=nl,bl=bh;\n    tag += 2;")],
 P+'''static int nsend; int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int g,MPI_Comm c,MPI_Request*r){ ++nsend; return PMPI_Isend(b,n,t,d,g,c,r); } int MPI_Send(const void*b,int n,MPI_Datatype t,int d,int g,MPI_Comm c){ ++nsend; return PMPI_Send(b,n,t,d,g,c); }
int main(int c,char**v){ struct comm cm; struct crystal cr; uint *d,i,n; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); crystal_init(&cr,&cm);
 n=40000; buffer_reserve(&cr.data,(n+3)*sizeof(uint)); d=cr.data.ptr; d[0]=(cm.id+1)%cm.np,d[1]=cm.id,d[2]=n; for(i=0;i<n;++i) d[3+i]=i; cr.data.n=n+3;
 nsend=0; crystal_router(&cr); for(i=0;(1u<<i)<cm.np;++i); if(nsend>2*(int)i) bad=1;
 finish(); }''',4)
mkseed("m03-odd-size","M03","records whose size leaves one byte over a whole number of integers",
 "the space per record is rounded down when one byte is left over, so that byte is overwritten by the next record",
 [("sarray_transfer.c","  row_size = (row_size+sizeof(uint)-1)/sizeof(uint);","  row_size = (row_size+sizeof(uint)-2)/sizeof(uint);")],
 P+'''int main(int c,char**v){ struct comm cm; struct crystal cr; struct array A=null_array; uint proc[40]; int i; unsigned size=9; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); crystal_init(&cr,&cm);
 A.ptr=malloc(40*9); A.n=A.max=40; for(i=0;i<40;++i){ memset((char*)A.ptr+9*i,100+i,9); proc[i]=i%cm.np; }
 sarray_transfer_ext_(&A,9,proc,sizeof(uint),&cr);
 for(i=0;i<(int)A.n;++i){ char*p=(char*)A.ptr+9*i; int k; for(k=1;k<9;++k) if(p[k]!=p[0]) bad=1; }
 finish(); }''',2)
mkseed("m04-count-capped","M04","more tuples arriving than the array can hold, the capacity reached in the middle of the messages received",
 "the count returned by a tuple transfer leaves out the tuples of later senders once the capacity is reached",
 [("sarray_transfer.c","      while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }\n      break;","      break;")],
 P+'''#define csetup GS_FORTRAN_NAME(crystal_setup,CRYSTAL_SETUP)
#define ctrans GS_FORTRAN_NAME(crystal_tuple_transfer,CRYSTAL_TUPLE_TRANSFER)
void csetup(sint*,const MPI_Fint*,const sint*);
void ctrans(const sint*,sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*);
int main(int c,char**v){ sint h,np,n=5,max=5,mi=2,ml=1,md=1,key=1,vi[10],i; slong vl[5]; double vr[5]; int id; MPI_Fint fc; MPI_Init(&c,&v); fc=MPI_Comm_c2f(MPI_COMM_WORLD);
 MPI_Comm_size(MPI_COMM_WORLD,&i); np=i; MPI_Comm_rank(MPI_COMM_WORLD,&id); csetup(&h,&fc,&np);
 for(i=0;i<5;++i) vi[2*i]=0,vi[2*i+1]=id*10+i,vl[i]=i,vr[i]=i;
 ctrans(&h,&n,&max,vi,&mi,vl,&ml,vr,&md,&key);
 if(n!=(id==0?5*np:0)) bad=1;
 finish(); }''',3)
mkseed("m05-reduce-empty","M05","a scalar reduction in which one process has nothing to contribute",
 "a process with no values of its own does not take part in the reduction, the others wait for it for ever",
 [("comm.c","  if(n!=0) SWITCH_OP(T,op);                                 \\","  if(n==0 && op!=gs_add) return accum;                      \\\n  if(n!=0) SWITCH_OP(T,op);                                 \\")],
 P+'''int main(int c,char**v){ struct comm cm; double d[3]={3,1,2},r; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD);
 r=comm_reduce_double(&cm,gs_max,d,cm.id==0?0:3); if(r!=3) bad=1; r=comm_reduce_double(&cm,gs_add,d,cm.id==0?0:3); if(r!=6.*(cm.np-1)) bad=1;
 finish(); }''',2)
mkseed("m05-scan-odd","M05","a scan over six or more processes",
 "a scan on a process count whose halves are odd uses the wrong partner's partial result",
 [("comm.c","      comm_recv(com, buffer,2*vsize, base,base);\n      gs_gather_array(scan,buf[0],vn,dom,op);\n      memcpy(red,buf[1],vsize);","      comm_recv(com, buffer,2*vsize, base,base);\n      if(n!=3 || base+n!=np) gs_gather_array(scan,buf[0],vn,dom,op);\n      memcpy(red,buf[1],vsize);")],
 P+'''int main(int c,char**v){ struct comm cm; double s[2],x,b[2]; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD);
 x=cm.id+1; comm_scan(s,&cm,gs_double,gs_add,&x,1,b); if(s[0]!=cm.id*(cm.id+1)/2. || s[1]!=cm.np*(cm.np+1)/2.) bad=1;
 finish(); }''',6)
mkseed("m06-send-first","M06","sends that do not complete before they are received: a scan of vectors too long for the MPI library to buffer",
 "both partners of a scan step send before they receive",
 [("comm.c","      comm_irecv(&req[0],com, buf[0],vsize, id+n/2,id+n/2);\n      comm_isend(&req[1],com, red   ,vsize, id+n/2,id);\n      comm_wait(req,2);","      comm_send(com, red   ,vsize, id+n/2,id);\n      comm_recv(com, buf[0],vsize, id+n/2,id+n/2);"),
  ("comm.c","      comm_irecv(&req[0],com, scan,vsize, base,base);\n      comm_isend(&req[1],com, red ,vsize, base,id);\n      comm_wait(req,2);","      comm_send(com, red ,vsize, base,id);\n      comm_recv(com, scan,vsize, base,base);")],
 P+'''int main(int c,char**v){ struct comm cm; int n=200000,i; double *s=calloc(2*n,8),*x=calloc(n,8),*b=calloc(2*n,8); MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); alarm(30);
 for(i=0;i<n;++i) x[i]=1; comm_scan(s,&cm,gs_double,gs_add,x,n,b); for(i=0;i<n;++i) if(s[i]!=cm.id||s[n+i]!=cm.np) bad=1;
 finish(); }'''.replace("int main","#include <unistd.h>\nint main"),2)
mkseed("m06-early-reuse","M06","a nonblocking pairwise operation whose sends are slower than its receives",
 "waiting on a nonblocking operation waits for what is received only: the sends go on reading the scratch buffer and their requests are lost",
 [("gs.c","  comm_wait(pwd->req,pwd->comm[0].n+pwd->comm[1].n);\n  /* gather using recv buffer */\n  gather_from_buf[mode](data,buf,vn,pwd->map[recv],dom,op);\n}\n\n/*------------------------------------------------------------------------------\n  Pairwise setup","  comm_wait(pwd->req,pwd->comm[recv].n);\n  /* gather using recv buffer */\n  gather_from_buf[mode](data,buf,vn,pwd->map[recv],dom,op);\n}\n\n/*------------------------------------------------------------------------------\n  Pairwise setup")],
 P+'''static int open_; int MPI_Isend(const void*b,int n,MPI_Datatype t,int d,int g,MPI_Comm c,MPI_Request*r){ ++open_; return PMPI_Isend(b,n,t,d,g,c,r); } int MPI_Irecv(void*b,int n,MPI_Datatype t,int d,int g,MPI_Comm c,MPI_Request*r){ ++open_; return PMPI_Irecv(b,n,t,d,g,c,r); }
int MPI_Waitall(int n,MPI_Request*r,MPI_Status*s){ open_-=n; return PMPI_Waitall(n,r,s); }
int main(int c,char**v){ struct comm cm; slong id[2]={1,2}; double u[2]={1,2}; struct gs_data*g; int h; buffer b=null_buffer; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); g=gs_setup(id,2,&cm,0,gs_pairwise,0); open_=0;
 igs(u,gs_double,gs_add,0,g,&b,&h); gs_wait(h); if(open_) bad=1;
 finish(); }''',3)
mkseed("m07-split-order","M07","a split whose keys do not follow the order of the parent's ranks",
 "a split numbers the members in parent order whatever their keys when all keys are negative or large",
 [("comm.h","  MPI_Comm_split(s->c, bin, key, &nc);","  MPI_Comm_split(s->c, bin, key<0 ? 0 : key, &nc);")],
 P+'''int main(int c,char**v){ struct comm cm,s; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); comm_split(&cm,0,-(int)cm.id,&s); if(s.id!=cm.np-1-cm.id||s.np!=cm.np) bad=1; comm_free(&s);
 finish(); }''',3)
# ---------------------------------------------------------------- numerical kernels
mkseed("n01-sign-case","N01","a bound over a range of values that straddles zero, that is two or more directions",
 "the upper bound of a straddling value uses the wrong half of the split bound",
 [("lob_bnd.c","            *b++ += w0 * lbnp[4*k+3] + w1 * lbnp[4*k+0],\n            *b++ += w1 * lbnp[4*k+3] + w0 * lbnp[4*k+0];","            *b++ += w0 * lbnp[4*k+3] + w1 * lbnp[4*k+0],\n            *b++ += w1 * lbnp[4*k+1] + w0 * lbnp[4*k+0];")],
 P+'''static double u[8*8]; int main(int c,char**v){ int n,i,j,t; unsigned s=1; MPI_Init(&c,&v);
 for(n=3;n<=8;++n) for(t=0;t<200;++t){ unsigned m=2*n; double *d=malloc(8*lob_bnd_size(n,m)),*w=malloc(8*2*m*(n+m+1)),*b=malloc(8*2*m*m),*z=malloc(8*n),*q=malloc(8*n),*L=malloc(8*lagrange_size(n)),*h;
  lagrange_fun*lag; lob_bnd_setup(d,n,m); h=d+3*n; lobatto_quad(z,q,n); lag=lagrange_setup(L,z,n);
  for(i=0;i<n*n;++i) s=s*1103515245u+12345u,u[i]=((s>>16)%2000)/1000.-1;
  lob_bnd_lin_2(b,d,n,m,d,n,m,u,1,w);
  for(i=0;i<m;++i) for(j=0;j<m;++j){ double a[16],e[16],x=0,*y=b+2*(i*m+j); int k,l; lag(a,L,n,0,h[i]); lag(e,L,n,0,h[j]); for(k=0;k<n;++k) for(l=0;l<n;++l) x+=a[l]*e[k]*u[k*n+l]; if(x<y[0]-1e-9||x>y[1]+1e-9) bad=1; }
  free(d),free(w),free(b),free(z),free(q),free(L); }
 finish(); }''',1)
mkseed("n02-edge-lost","N02","an element with more nodes in one direction than in the other whose last edge in the second direction bulges outwards",
 "one of the four edges of a two-dimensional element is read from the wrong place when the numbers of nodes differ",
 [("obbox.c","      DO_EDGE(1,r,&x[nrs-nr],&y[nrs-nr],work);","      DO_EDGE(1,r,&x[nr>ns?(ns-1)*ns:nrs-nr],&y[nr>ns?(ns-1)*ns:nrs-nr],work);")],
 P+'''int main(int c,char**v){ unsigned n[2]={5,2},m[2]={10,4}; double x[10],y[10],z[2][5],q[5]; const double *e[2]={x,y}; struct obbox_2 b; int i,j; MPI_Init(&c,&v);
 lobatto_quad(z[0],q,5); lobatto_quad(z[1],q,2);
 for(j=0;j<2;++j) for(i=0;i<5;++i) x[5*j+i]=z[0][i], y[5*j+i]=z[1][j]+(j==1?0.8*(1-z[0][i]*z[0][i]):0);
 obbox_calc_2(&b,e,n,1,m,0.01); for(i=0;i<10;++i){ if(obbox_test_2(&b,(double[]){x[i],y[i]})<0) bad=1; }
 finish(); }''',1)
mkseed("n03-odd-weight","N03","a Lobatto rule with an odd number of nodes, more than 25",
 "the weight of the middle node of a Lobatto rule beyond the tabulated orders is that of its neighbour",
 [("poly.c","  for(i=0; i<=(n-1)/2; ++i) {\n    double d = legendre(n-1,z[i]);","  for(i=0; i<=(n-1)/2; ++i) {\n    double d = legendre(n-1,z[n>GLL_LAG_FIX_MAX+1 && 2*i==n-1?i-1:i]);")],
 P+'''int main(int c,char**v){ int n,i,k; MPI_Init(&c,&v);
 for(n=2;n<=40;++n){ double z[40],w[40]; lobatto_quad(z,w,n); for(i=0;i<n;++i) if(fabs(z[i]+z[n-1-i])>1e-13) bad=1; for(k=0;k<=2*n-3;++k){ double s=0; for(i=0;i<n;++i) s+=w[i]*pow(z[i],k); if(fabs(s-(k&1?0:2./(k+1)))>1e-11) bad=1; } }
 finish(); }''',1)
mkseed("n04-nonsquare","N04","a three-dimensional tensor product whose middle factor is not square",
 "the slices of the intermediate result are spaced for the wrong size",
 [("tensor.h","  const uint nrs=nr*ns, mst=ms*mt, nrms=nr*ms;","  const uint nrs=nr*ns, mst=ms*mt, nrms=nr*(ns<ms?ns:ms);")],
 P+'''int main(int c,char**v){ int nr=2,ns=2,nt=3,mr=3,ms=4,mt=2,i,j,k,a,b,d; double A[6],B[8],C[6],u[24],o[12],w[200]; MPI_Init(&c,&v);
 for(i=0;i<6;++i) A[i]=i+1,C[i]=7-i; for(i=0;i<8;++i) B[i]=i*i-3; for(i=0;i<24;++i) u[i]=(i*7)%11;
 tensor_3t(o,A,nr,mr,B,ns,ms,C,nt,mt,u,w);
 for(k=0;k<nt;++k) for(j=0;j<ns;++j) for(i=0;i<nr;++i){ double s=0; for(d=0;d<mt;++d) for(b=0;b<ms;++b) for(a=0;a<mr;++a) s+=A[i*mr+a]*B[j*ms+b]*C[k*mt+d]*u[(d*ms+b)*mr+a]; if(fabs(s-o[(k*ns+j)*nr+i])>1e-9) bad=1; }
 finish(); }''',1)
# ---------------------------------------------------------------- configurations
S='''#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "gs_defs.h"
#include "comm.h"
#include "gs.h"
#include "crystal.h"
#include "sort.h"
#include "sarray_sort.h"
#include "sarray_transfer.h"
'''
mkseed("c01-check-np","C01","a build without MPI given a process count other than one",
 "without MPI a wrong process count is accepted",
 [("comm.h","  if(np != 1)\n    fail(1,file,line,\"comm_init_check: passed P=%u, \"","  if(np < 1)\n    fail(1,file,line,\"comm_init_check: passed P=%u, \"")],
 S+'''#include <sys/wait.h>
#include <unistd.h>
int main(void){ struct comm c; pid_t p=fork(); int st; if(p==0){ freopen("/dev/null","w",stderr); freopen("/dev/null","w",stdout); comm_init_check(&c,0,2); _exit(0); } waitpid(p,&st,0); return WIFEXITED(st)&&WEXITSTATUS(st)==0; }''',1,src="-DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ -DGSLIB_UNDERSCORE -DGSLIB_USE_GLOBAL_LONG_LONG -DGSLIB_USE_NAIVE_BLAS")
mkseed("c02-key-offset","C02","local integers wider than int, a record with fields behind its destination field",
 "the bytes behind the destination field are taken four bytes after it whatever the width of the field",
 [("sarray_transfer.c","static void pack_int(\n  buffer *const data, const unsigned row_size, const uint id,\n  const char *const restrict input, const uint n, const unsigned size,\n  const unsigned p_off, const uint *const restrict perm)\n{\n  const unsigned after = p_off + sizeof(uint)","static void pack_int(\n  buffer *const data, const unsigned row_size, const uint id,\n  const char *const restrict input, const uint n, const unsigned size,\n  const unsigned p_off, const uint *const restrict perm)\n{\n  const unsigned after = p_off + sizeof(unsigned)"),],
 S+'''struct r{ uint p; ulong a; double x; };
int main(int c,char**v){ struct comm cm; struct crystal cr; struct array A; int i,bad=0,g; MPI_Init(&c,&v); comm_init(&cm,MPI_COMM_WORLD); crystal_init(&cr,&cm);
 array_init(struct r,&A,6); A.n=6; for(i=0;i<6;++i){ struct r*q=(struct r*)A.ptr+i; q->p=i%cm.np,q->a=7000000+i,q->x=i+.5; }
 sarray_transfer(struct r,&A,p,1,&cr); for(i=0;i<(int)A.n;++i){ struct r*q=(struct r*)A.ptr+i; if(q->a<7000000||q->x!=(double)(q->a-7000000)+.5) bad=1; }
 MPI_Allreduce(&bad,&g,1,MPI_INT,MPI_SUM,MPI_COMM_WORLD); MPI_Finalize(); return g?1:0; }''',2,src="-DGSLIB_USE_MPI -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ -DGSLIB_UNDERSCORE -DGSLIB_USE_LONG -DGSLIB_USE_GLOBAL_LONG -DGSLIB_USE_NAIVE_BLAS")
