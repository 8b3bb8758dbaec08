/* quadrature, interpolation, polynomial bounds, bounding boxes, tensor kernels.
   Reals are logged as [h,m,l] = h + m/2^22 + l/2^44 (h rounded down), exactly up to 2^-44. */
#include "drv.h"
#define Q22 4194304.0
void em_fx(double v){ double h,m,l; if(!(fabs(v)<2e9)){ EM("[%d,0,0]",BADV); return; } h=floor(v); v=(v-h)*Q22; m=floor(v); v=(v-m)*Q22; l=floor(v); EM("[%d,%d,%d]",(int)h,(int)m,(int)l); }
void em_fxs(const char *name,const double *v,int n,int st){ int i; EM(",\"%s\":[",name); for(i=0;i<n;++i){ if(i) EM(","); em_fx(v[(size_t)i*st]); } EM("]"); }
/* Chebyshev series c_0..c_deg at x */
static double cheb(const double *c,int deg,double x){ double a=1,b=x,s=c[0]; int k; for(k=1;k<=deg;++k){ double t; s+=c[k]*b; t=2*x*b-a; a=b; b=t; } return s; }
static double *rd(int n){ double *c=dmalloc(sizeof(double)*(n+1)); int i; for(i=0;i<n;++i) c[i]=ti(); return c; }

static void quad(void){ int lob=ti(), n=ti(), K=ti(), i,k,same; double *z=dmalloc(8*n),*w=dmalloc(8*n),*y=dmalloc(8*n),*q=dmalloc(8*(K+1)); 
  if(lob) lobatto_quad(z,w,n), lobatto_nodes(y,n); else gauss_quad(z,w,n), gauss_nodes(y,n);
  same=!memcmp(z,y,8*n); for(k=0;k<=K;++k){ q[k]=0; for(i=0;i<n;++i){ double p=w[i]; int j; for(j=0;j<k;++j) p*=z[i]; q[k]+=p; } }
  EM("{\"e\":\"qd\",\"r\":%d,\"lob\":%d,\"n\":%d,\"same\":%d",ME,lob,n,same); em_fxs("z",z,n,1); em_fxs("w",w,n,1); em_fxs("q",q,K+1,1); EM("}\n"); dfree(z); dfree(w); dfree(y); dfree(q); }
/* lg kind n [nodes j/8 when kind=0] deg c0..cdeg  nq (x as j/16, or 1000+i for node i; highest derivative)* */
static void lagr(void){ int kind=ti(), n=ti(), i,q,nq; double *z=dmalloc(8*n),*dat,*dat2=0,*p=dmalloc(8*3*n),*p2=dmalloc(8*3*n),*u=dmalloc(8*n),*c; int deg; lagrange_fun *f,*f2=0;
  if(kind==0) for(i=0;i<n;++i) z[i]=ti()/8.; else lobatto_nodes(z,n);
  deg=ti(); c=rd(deg+1); for(i=0;i<n;++i) u[i]=cheb(c,deg,z[i]);
  if(kind==0) dat=dmalloc(8*lagrange_size(n)), f=lagrange_setup(dat,z,n); else { dat=dmalloc(8*gll_lag_size(n)), f=gll_lag_setup(dat,n); dat2=dmalloc(8*lagrange_size(n)); f2=lagrange_setup(dat2,z,n); }
  nq=ti();
  for(q=0;q<nq;++q){ int j=ti(), d=ti(), k, node=j>=1000?j-1000:-1; double x= node>=0?z[node]:j/16., v[3]={0,0,0},mx=0;
    for(i=0;i<3*n;++i) p[i]=p2[i]=777; f(p,dat,n,d,x); for(k=0;k<=d;++k) for(i=0;i<n;++i) v[k]+=p[k*n+i]*u[i];
    if(f2){ f2(p2,dat2,n,d,x); for(i=0;i<(d+1)*n;++i) if(!(fabs(p[i]-p2[i])<=mx)) mx=fabs(p[i]-p2[i]); }
    EM("{\"e\":\"lg\",\"r\":%d,\"gll\":%d,\"n\":%d,\"x\":%d,\"node\":%d,\"d\":%d",ME,kind,n,j,node,d); em_ints("z8",0,0); EM(",\"c\":["); for(i=0;i<=deg;++i) EM(i?",%d":"%d",(int)c[i]); EM("]"); EM(",\"xv\":"); em_fx(x); em_fxs("v",v,d+1,1); em_fxs("p",p,node>=0?n:0,1); EM(",\"df\":"); em_fx(mx); EM("}\n"); }
  dfree(z); dfree(dat); if(dat2) dfree(dat2); dfree(p); dfree(p2); dfree(u); dfree(c); }

/* polynomials in 1-3 variables: terms coef a b c ; evaluated exactly at dyadic points */
struct term { int c,a[3]; }; 
static double ipow(double x,int k){ double r=1; while(k-->0) r*=x; return r; }
static double peval(const struct term *t,int nt,int dim,const double *x,int sh){ double s=0; int i,d; for(i=0;i<nt;++i){ double v=t[i].c; for(d=0;d<dim;++d) v*=ipow(x[d],t[i].a[d]); s+=v; } return ldexp(s,-sh); }
static struct term *rd_terms(int *nt){ struct term *t; int i,d; *nt=ti(); t=dmalloc(sizeof(struct term)*(*nt+1)); for(i=0;i<*nt;++i){ t[i].c=ti(); for(d=0;d<3;++d) t[i].a[d]=ti(); } return t; }
static void em_terms(const struct term *t,int nt){ int i; EM("["); for(i=0;i<nt;++i) EM("%s[%d,%d,%d,%d]",i?",":"",t[i].c,t[i].a[0],t[i].a[1],t[i].a[2]); EM("]"); }
/* 1-d bounds: n m deg c.. L (lattice j/L) */
static void lb1(void){ int n=ti(), m=ti(), np=ti(), deg=ti(), L=ti(), i,k,q; double *dat=dmalloc(8*lob_bnd_size(n,m)),*z=dmalloc(8*n),*u=dmalloc(8*n*np),*w=dmalloc(16*m),*b=dmalloc(16*m*np),**c=dmalloc(sizeof(double*)*np); const double *h=dat+3*n; struct dbl_range r; double *lo=dmalloc(8*(2*L+1)),*hi=dmalloc(8*(2*L+1));
  lob_bnd_setup(dat,n,m); lobatto_nodes(z,n); for(k=0;k<np;++k){ c[k]=rd(deg+1); for(i=0;i<n;++i) u[k*n+i]=cheb(c[k],deg,z[i]); }
  lob_bnd_lin_1(b,dat,n,m,u,np);
  for(k=0;k<np;++k){ const double *bb=b+2*m*k; r=lob_bnd_1(dat,n,m,u+k*n,w);
    for(q=-L;q<=L;++q){ double x=q/(double)L,t; int a=0; while(a<m-2&&cos((m-1-(a+1))*3.14159265358979323846/(m-1))<x) ++a; { double h0= a==0?-1:cos((m-1-a)*3.14159265358979323846/(m-1)), h1= a+1==m-1?1:cos((m-2-a)*3.14159265358979323846/(m-1)); t=(x-h0)/(h1-h0); } lo[q+L]=bb[2*a]*(1-t)+bb[2*a+2]*t; hi[q+L]=bb[2*a+1]*(1-t)+bb[2*a+3]*t; }
    EM("{\"e\":\"b1\",\"r\":%d,\"n\":%d,\"m\":%d,\"L\":%d,\"c\":[",ME,n,m,L); for(i=0;i<=deg;++i) EM(i?",%d":"%d",(int)c[k][i]); EM("],\"min\":"); em_fx(r.min); EM(",\"max\":"); em_fx(r.max); em_fxs("lo",lo,2*L+1,1); em_fxs("hi",hi,2*L+1,1); EM("}\n"); dfree(c[k]); }
  dfree(dat); dfree(z); dfree(u); dfree(w); dfree(b); dfree(c); dfree(lo); dfree(hi); }
/* 2/3-d bounds: dim n[] m[] terms */
static void lbd(void){ int dim=ti(), n[3]={1,1,1},m[3]={1,1,1},d,i,j,k,nt; double *dat[3],*z[3]; size_t nn=1,ws; double *u,*w; struct term *t; struct dbl_range r; double zero=0;
  for(d=0;d<dim;++d) n[d]=ti(); for(d=0;d<dim;++d) m[d]=ti(); t=rd_terms(&nt);
  for(d=0;d<dim;++d){ dat[d]=dmalloc(8*lob_bnd_size(n[d],m[d])); lob_bnd_setup(dat[d],n[d],m[d]); z[d]=dmalloc(8*n[d]); lobatto_nodes(z[d],n[d]); nn*=n[d]; } u=dmalloc(8*nn);
  for(k=0;k<n[2];++k) for(j=0;j<n[1];++j) for(i=0;i<n[0];++i){ double x[3]={z[0][i],z[1][j],dim>2?z[2][k]:0}; u[(k*n[1]+j)*n[0]+i]=peval(t,nt,dim,x,0); }
  ws= dim==2? 2*m[0]*(n[1]+m[1]+1): 2*m[0]*m[1]*(n[2]+m[2]+1); w=dmalloc(8*ws);
  { double *q=w; size_t a; for(a=0;a<ws;++a) q[a]=NAN; }
  r= dim==2? lob_bnd_2(dat[0],n[0],m[0],dat[1],n[1],m[1],u,w): lob_bnd_3(dat[0],n[0],m[0],dat[1],n[1],m[1],dat[2],n[2],m[2],u,w); (void)zero;
  EM("{\"e\":\"bd\",\"r\":%d,\"dim\":%d,\"t\":",ME,dim); em_terms(t,nt); EM(",\"min\":"); em_fx(r.min); EM(",\"max\":"); em_fx(r.max); EM("}\n");
  for(d=0;d<dim;++d) dfree(dat[d]),dfree(z[d]); dfree(u); dfree(w); dfree(t); }
/* piecewise linear bounds of several tensor products of Chebyshev series, where they are tightest: dim n[] m[] un (terms)*un */
static void lbl(void){ int dim=ti(), n[3]={1,1,1},m[3]={1,1,1},d,i,j,k,a,un,f,*nt; double *dat[3],*z[3],*h[3],*u,*b,*w; size_t nn=1,mm=1,ws; struct term **t;
  for(d=0;d<dim;++d) n[d]=ti(); for(d=0;d<dim;++d) m[d]=ti(); un=ti(); t=dmalloc(sizeof(*t)*un); nt=dmalloc(sizeof(int)*un); for(f=0;f<un;++f) t[f]=rd_terms(&nt[f]);
  for(d=0;d<dim;++d){ dat[d]=dmalloc(8*lob_bnd_size(n[d],m[d])); lob_bnd_setup(dat[d],n[d],m[d]); z[d]=dmalloc(8*n[d]); lobatto_nodes(z[d],n[d]); nn*=n[d]; mm*=m[d]; h[d]=dmalloc(16*m[d]);
    for(i=0;i<m[d];++i) h[d][2*i]= i==0?-1: i==m[d]-1?1: cos((m[d]-1-i)*3.14159265358979323846/(m[d]-1)); for(i=0;i<m[d]-1;++i) h[d][2*i+1]=(h[d][2*i]+h[d][2*i+2])/2; }
  u=dmalloc(8*nn*un); b=dmalloc(16*mm*un); ws= dim==1?0: dim==2? 2*m[0]+2*n[1]*m[0]: 2*m[0]*m[1]+2*n[2]*m[1]*m[0]; w=dmalloc(8*(ws?ws:1)); { size_t q; for(q=0;q<ws;++q) w[q]=NAN; for(q=0;q<2*mm*un;++q) b[q]=NAN; }
#define TT(x,e) cos((e)*acos((x)>1?1:(x)<-1?-1:(x)))
#define PV(f,X) ({ double s_=0; int i_; for(i_=0;i_<nt[f];++i_){ double v_=t[f][i_].c; int d_; for(d_=0;d_<dim;++d_) v_*=TT((X)[d_],t[f][i_].a[d_]); s_+=v_; } s_; })
  for(f=0;f<un;++f) for(k=0;k<n[2];++k) for(j=0;j<n[1];++j) for(i=0;i<n[0];++i){ double x[3]={z[0][i],dim>1?z[1][j]:0,dim>2?z[2][k]:0}; u[f*nn+(k*n[1]+j)*n[0]+i]=PV(f,x); }
  if(dim==1) lob_bnd_lin_1(b,dat[0],n[0],m[0],u,un); else if(dim==2) lob_bnd_lin_2(b,dat[0],n[0],m[0],dat[1],n[1],m[1],u,un,w); else lob_bnd_lin_3(b,dat[0],n[0],m[0],dat[1],n[1],m[1],dat[2],n[2],m[2],u,un,w);
  for(f=0;f<un;++f){ enum { NB=4 }; double bs[2][NB]; int bi[2][NB][3],s; for(s=0;s<2;++s) for(i=0;i<NB;++i) bs[s][i]=1e300,bi[s][i][0]=bi[s][i][1]=bi[s][i][2]=0;
    EM("{\"e\":\"bl\",\"r\":%d,\"dim\":%d,\"t\":",ME,dim); em_terms(t[f],nt[f]); EM(",\"p\":[");
    { int i3[3],pass; for(pass=0;pass<2;++pass){ int q,s2; 
      for(i3[2]=0;i3[2]<2*m[2]-1;++i3[2]) for(i3[1]=0;i3[1]<2*m[1]-1;++i3[1]) for(i3[0]=0;i3[0]<2*m[0]-1;++i3[0]){ double x[3]={0,0,0},lh[2]={0,0},v; int hit=0;
        if(pass){ for(s2=0;s2<2;++s2) for(q=0;q<NB;++q) if(!memcmp(bi[s2][q],i3,sizeof i3)) hit=1; if(!hit) continue; }
        for(d=0;d<dim;++d) x[d]=h[d][i3[d]];
        for(a=0;a<8;++a){ int Ix[3]; size_t at; for(d=0;d<3;++d) Ix[d]=(i3[d]+((a>>d)&1))/2; at=((size_t)Ix[0]*m[1]+Ix[1])*m[2]+Ix[2]; for(s=0;s<2;++s) lh[s]+=b[2*(f*mm+at)+s]/8; }
        if(!pass){ v=PV(f,x); for(s=0;s<2;++s){ double sl= s? lh[1]-v: v-lh[0]; if(isnan(sl)) sl=-1e300; for(q=0;q<NB&&!(sl<bs[s][q]);++q); if(q<NB){ memmove(bs[s]+q+1,bs[s]+q,8*(NB-1-q)); memmove(bi[s]+q+1,bi[s]+q,sizeof(int)*3*(NB-1-q)); bs[s][q]=sl; memcpy(bi[s][q],i3,sizeof i3); } } }
        else { EM("%s[[",hit==1&&bs[0][0]<2e300?"":","); bs[0][0]=3e300; for(d=0;d<3;++d){ if(d) EM(","); em_fx(x[d]); } EM("],"); em_fx(lh[0]); EM(","); em_fx(lh[1]); EM("]"); } } } }
    EM("]"); { struct dbl_range r; double *w2; size_t ws2= mm*2+ws; w2=dmalloc(8*ws2); r= dim==1?lob_bnd_1(dat[0],n[0],m[0],u+f*nn,w2): dim==2? lob_bnd_2(dat[0],n[0],m[0],dat[1],n[1],m[1],u+f*nn,w2): lob_bnd_3(dat[0],n[0],m[0],dat[1],n[1],m[1],dat[2],n[2],m[2],u+f*nn,w2); EM(",\"min\":"); em_fx(r.min); EM(",\"max\":"); em_fx(r.max); dfree(w2); }
    EM("}\n"); dfree(t[f]); }
  for(d=0;d<dim;++d) dfree(dat[d]),dfree(z[d]),dfree(h[d]); dfree(u); dfree(b); dfree(w); dfree(t); dfree(nt); }
/* bounding boxes: dim n[] m[] tolshift sh nel  per element: terms per coordinate */
static void obb(void){ int dim=ti(), n[3]={1,1,1},m[3],d,e,i,j,k,nel,ts,sh,*nt; unsigned un[3],um[3]; double *el[3],*z[3]; size_t nn=1; struct term **t; struct obbox_2 *o2; struct obbox_3 *o3; double tol; int L;
  for(d=0;d<dim;++d) n[d]=ti(); for(d=0;d<dim;++d) m[d]=ti(); ts=ti(); sh=ti(); nel=ti(); L= 1; tol= ts<0?0:ldexp(1,-ts); t=dmalloc(sizeof(*t)*3*(nel+1)); nt=dmalloc(sizeof(int)*3*(nel+1));
  for(e=0;e<nel;++e) for(d=0;d<dim;++d) t[e*3+d]=rd_terms(&nt[e*3+d]);
  for(d=0;d<dim;++d){ z[d]=dmalloc(8*n[d]); lobatto_nodes(z[d],n[d]); nn*=n[d]; un[d]=n[d]; um[d]=m[d]; } for(d=0;d<dim;++d) el[d]=dmalloc(8*nn*(nel+1));
  for(e=0;e<nel;++e) for(d=0;d<dim;++d) for(k=0;k<n[2];++k) for(j=0;j<n[1];++j) for(i=0;i<n[0];++i){ double x[3]={z[0][i],z[1][j],dim>2?z[2][k]:0}; el[d][e*nn+(k*n[1]+j)*n[0]+i]=peval(t[e*3+d],nt[e*3+d],dim,x,sh); }
  o2=dmalloc(sizeof(*o2)*(nel+1)); o3=dmalloc(sizeof(*o3)*(nel+1));
  if(dim==2) obbox_calc_2(o2,(const double*const*)el,un,nel,um,tol); else obbox_calc_3(o3,(const double*const*)el,un,nel,um,tol);
  for(e=0;e<nel;++e){ int a[3],lim= dim==3?2:4; EM("{\"e\":\"ob\",\"r\":%d,\"dim\":%d,\"sh\":%d,\"ts\":%d,\"t\":[",ME,dim,sh,ts); for(d=0;d<dim;++d){ if(d) EM(","); em_terms(t[e*3+d],nt[e*3+d]); } EM("],\"b\":["); for(d=0;d<dim;++d){ struct dbl_range r= dim==2?o2[e].x[d]:o3[e].x[d]; EM(d?",[":"["); em_fx(r.min); EM(","); em_fx(r.max); EM("]"); } EM("],\"s\":["); 
    for(a[2]=dim==3?-lim:0,i=0;a[2]<=(dim==3?lim:0);++a[2]) for(a[1]=-lim;a[1]<=lim;++a[1]) for(a[0]=-lim;a[0]<=lim;++a[0]){ double r[3]={a[0]/(double)lim,a[1]/(double)lim,a[2]/(double)lim},x[3],v,ax; for(d=0;d<dim;++d) x[d]=peval(t[e*3+d],nt[e*3+d],dim,r,sh); if(dim==2) v=obbox_test_2(&o2[e],x), ax=obbox_axis_test_2(&o2[e],x); else v=obbox_test_3(&o3[e],x), ax=obbox_axis_test_3(&o3[e],x);
      EM(i++?",%d":"%d",isnan(v)||isnan(ax)?-2: v<-1e-9||ax<-1e-9?-1: v>1e-9?1:0); }
    EM("]}\n"); }
  for(d=0;d<dim;++d) dfree(z[d]),dfree(el[d]); for(e=0;e<nel;++e) for(d=0;d<dim;++d) dfree(t[e*3+d]); dfree(t); dfree(nt); dfree(o2); dfree(o3); }

/* tensor kernels on integers */
static void em_r(const char *name,const double *v,int n){ int i; EM(",\"%s\":[",name); for(i=0;i<n;++i) EM(i?",%d":"%d",fabs(v[i])<1.9e9&&v[i]==floor(v[i])?(int)v[i]:BADV); EM("]"); }
static double *scr(int n){ double *p=dmalloc(8*(n?n:1)); int i; for(i=0;i<n;++i) p[i]=NAN; return p; }
static void tens(void){ char op[8]; strcpy(op,tok()); int a=ti(),b=ti(),c=ti(),e=ti(),f=ti(),g=ti(),i; 
  double *A,*B,*C,*U,*w,out[4],*o; 
#define HD EM("{\"e\":\"tn\",\"r\":%d,\"op\":\"%s\",\"d\":[%d,%d,%d,%d,%d,%d]",ME,op,a,b,c,e,f,g)
#define Z dfree(A),dfree(B)
  if(!strcmp(op,"dot")){ A=rd(a); B=rd(a); out[0]=tensor_dot(A,B,a); HD; em_r("A",A,a); em_r("B",B,a); em_r("o",out,1); Z; }
  else if(!strcmp(op,"mxv")){ A=rd(a*b); B=rd(b); o=scr(a); tensor_mxv(o,a,A,B,b); HD; em_r("A",A,a*b); em_r("B",B,b); em_r("o",o,a); Z; dfree(o); }
  else if(!strcmp(op,"mtxv")){ A=rd(a*b); B=rd(b); o=scr(a); tensor_mtxv(o,a,A,B,b); HD; em_r("A",A,a*b); em_r("B",B,b); em_r("o",o,a); Z; dfree(o); }
  else if(!strcmp(op,"mxm")){ A=rd(a*b); B=rd(b*c); o=scr(a*c); tensor_mxm(o,a,A,b,B,c); HD; em_r("A",A,a*b); em_r("B",B,b*c); em_r("o",o,a*c); Z; dfree(o); }
  else if(!strcmp(op,"mtxm")){ A=rd(a*b); B=rd(b*c); o=scr(a*c); tensor_mtxm(o,a,A,b,B,c); HD; em_r("A",A,a*b); em_r("B",B,b*c); em_r("o",o,a*c); Z; dfree(o); }
  else if(op[0]=='i'&&op[1]!='g'){ int dim=op[1]-'0'; A=rd(a); B=rd(b); C=rd(c); U=rd(a*b*c); w=scr(dim==2?b:b*c+c); out[0]= dim==1?tensor_i1(A,a,U):dim==2?tensor_i2(A,a,B,b,U,w):tensor_i3(A,a,B,b,C,c,U,w); HD; em_r("A",A,a); em_r("B",B,b); em_r("C",C,c); em_r("U",U,a*b*c); em_r("o",out,1); Z; dfree(C); dfree(U); dfree(w); }
  else if(op[0]=='i'){ int dim=op[2]-'0'; A=rd(2*a); B=rd(2*b); C=rd(2*c); U=rd(a*b*c); w=scr(dim==2?2*a:2*a*b+3*a); out[0]= dim==1?tensor_ig1(out+1,A,a,U):dim==2?tensor_ig2(out+1,A,a,B,b,U,w):tensor_ig3(out+1,A,a,B,b,C,c,U,w); HD; em_r("A",A,2*a); em_r("B",B,2*b); em_r("C",C,2*c); em_r("U",U,a*b*c); em_r("o",out,dim+1); Z; dfree(C); dfree(U); dfree(w); }
  else { int dim=op[0]-'0'; /* out a x c (x f), in b x e (x g): Jr b x a, Js e x c, Jt g x f */
    A=rd(b*a); B=rd(e*c); C=rd(g*f); U=rd(b*e*g); o=scr(a*c*f); w=scr(dim==2?a*e:a*(e+c)*g); 
    if(dim==2) tensor_2t(o,A,a,b,B,c,e,U,w); else tensor_3t(o,A,a,b,B,c,e,C,f,g,U,w);
    HD; em_r("A",A,b*a); em_r("B",B,e*c); em_r("C",C,g*f); em_r("U",U,b*e*g); em_r("o",o,a*c*f); Z; dfree(C); dfree(U); dfree(o); dfree(w); }
  EM("}\n"); (void)i; }
int cmd_num(const char *c){
  if(!strcmp(c,"qd")){ quad(); return 1; } if(!strcmp(c,"lg")){ lagr(); return 1; } if(!strcmp(c,"b1")){ lb1(); return 1; } if(!strcmp(c,"bd")){ lbd(); return 1; } if(!strcmp(c,"bl")){ lbl(); return 1; } if(!strcmp(c,"ob")){ obb(); return 1; } if(!strcmp(c,"tn")){ tens(); return 1; }
  return 0; }
#if !defined(GSLIB_USE_NAIVE_BLAS) && !defined(GSLIB_USE_CBLAS)
/* the external matrix product of the Fortran codes that embed the library: C (na x nc) = A (na x nb) B (nb x nc) */
void mxm_(const double *A,const uint *na,const double *B,const uint *nb,double *C,const uint *nc){ uint i,j,k; for(j=0;j<*nc;++j) for(i=0;i<*na;++i){ double s=0; for(k=0;k<*nb;++k) s+=A[k* *na+i]*B[j* *nb+k]; C[j* *na+i]=s; } }
void fgslib_mxm_(const double *A,const uint *na,const double *B,const uint *nb,double *C,const uint *nc){ uint i,j,k; for(j=0;j<*nc;++j) for(i=0;i<*na;++i){ double s=0; for(k=0;k<*nb;++k) s+=A[k* *na+i]*B[j* *nb+k]; C[j* *na+i]=s; } }
#endif
