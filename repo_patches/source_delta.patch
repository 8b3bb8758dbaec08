From 4f55e4d8e18766d1a09d7dcd4fa2b89da975edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 01/20] fix: set the nonblocking entry points of the
 crystal-router exchange

cr_setup left exec_irecv, exec_isend and exec_wait uninitialised, so any
nonblocking operation on a crystal-router handle (or one picked by auto)
jumped through a wild pointer.
---
 src/gs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..5dc269f 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -938,6 +938,10 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  /* nonblocking operations perform the whole exchange when issued */
+  r->exec_irecv = NULL;
+  r->exec_isend = (exec_fun*)&cr_exec;
+  r->exec_wait = NULL;
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From a881216ac40eec552b9b5a8314c393a73ed9054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 02/20] fix: comm_iallreduce always sets its request and leaves
 the result in buf

With nothing to reduce, and for reductions done by hand (bpr), the request
was left uninitialised, and in the latter case the result was left in v
although the caller reads buf after waiting.
---
 src/comm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..d00da4d 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL;
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]); /* the result is expected in buf */
 #endif
 }
 
-- 
2.43.0


From 83b22cd5c2520cb33cab007c85ebc49a116dd65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 03/20] fix: free the request of an all-reduce gather-scatter
 handle

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 5dc269f..b9db646 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1072,6 +1072,7 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
+  free(ard->req);
   free(ard);
 }
 
-- 
2.43.0


From 8f6962bd0e4daaaede8024cda6b9fb9f157dce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 04/20] fix: gs_op_fields uses the size of the element type it
 was given

The stride was scaled by the size of another entry of the type table, so
fields of 32- and 64-bit integers were addressed with the wrong stride.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index b9db646..d036eba 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1645,7 +1645,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From 100237b29f3159d4029d3e79f9ae51db9fe5b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 05/20] fix: release the communicator made by the Fortran
 gs_unique

---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index d036eba..8224ce6 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1667,5 +1667,6 @@ void fgs_unique(slong id[], const sint *n, const MPI_Fint *c, const sint *np)
   comm = tmalloc(struct comm, 1);
   comm_init_check(comm, *c, *np);
   cgs_unique(id, un, comm);
+  comm_free(comm);
   free(comm);
 }
-- 
2.43.0


From 3875206376ffa8e701b9c9a2b8962b49a4637d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 06/20] fix: nonblocking operations without a buffer no longer
 share one

igs with a null buffer (every Fortran nonblocking operation) kept its
pending messages in the static buffer, which any other operation with a
null buffer resizes and overwrites before gs_wait is called.
---
 src/gs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 8224ce6..b429a21 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1252,7 +1252,7 @@ struct nonblocking_private {
   gs_op op;
   unsigned transpose;
   struct gs_data *gsh;
-  buffer *buf;
+  buffer *buf, own_buf; /* own_buf is used if the user gave no buffer */
   unsigned vn;
 };
 
@@ -1282,6 +1282,8 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->mode = mode_plain;
   nblkng_dict[nblkng_n]->vn = 1;
@@ -1304,6 +1306,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    buffer_free(&nblkng_dict[handle]->own_buf);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1338,6 +1341,8 @@ void igs_vec(void *u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_vec;
@@ -1370,6 +1375,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  buffer_init(&nblkng_dict[nblkng_n]->own_buf,0);
+  if(!buf) buf = &nblkng_dict[nblkng_n]->own_buf;
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_many;
-- 
2.43.0


From 6e1eeeefc50e480adb9a682c6dabc68c578dd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 07/20] fix: igs_many keeps its own copy of the list of arrays

The Fortran igs_op_many passes a list on its stack, which gs_wait then
used after the routine had returned.
---
 src/gs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index b429a21..dfaade2 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1306,6 +1306,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     buffer_free(&nblkng_dict[handle]->own_buf);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
@@ -1370,7 +1371,9 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
 
   nblkng_dict[nblkng_n] = tmalloc(struct nonblocking_private, 1);
 
-  nblkng_dict[nblkng_n]->u = (void *)u;
+  /* the caller's list of arrays may be gone by the time of gs_wait */
+  nblkng_dict[nblkng_n]->u = tmalloc(void*,vn);
+  memcpy(nblkng_dict[nblkng_n]->u,u,vn*sizeof(void*));
   nblkng_dict[nblkng_n]->dom = dom;
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
-- 
2.43.0


From 5f2fc8fa6621ee098d9924407771093e93a350a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 08/20] fix: tuple transfer stops at the capacity of the arrays

When more tuples arrive than fit, the last message that is stored was made
longer instead of shorter, so tuples were written beyond the arrays.
---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..771982a 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From 9e2686129468a2a3d4450f3137ac347997df5094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 09/20] fix: transfer records that consist of their destination
 only

Such records have an empty payload, so the number received was computed
by dividing by zero.
---
 src/sarray_transfer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 771982a..cc5eec7 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,8 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  /* records with nothing but a destination are still counted by their length */
+  if(row_size==0) row_size=1;
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From e34b357d696500236db40754f489d32f71abfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 10/20] fix: unique set-up keeps the primary entry of each
 group first

make_topology_unique sorted the local entries by index, so that a flagged
entry could come before the (unflagged) primary of its group; local_map
relies on the primary being first, and combined and copied the wrong entry
for ids with flagged and unflagged duplicates on one process.
---
 src/gs.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gs.c b/src/gs.c
index dfaade2..e9cdfbb 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -265,7 +265,6 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
   struct primary_shared_id *q;
 
   /* flag local non-primaries */
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, i,0, buf);
   if(id) {
     struct nonzero_id *p,*e;
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
@@ -275,7 +274,6 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
       if(p->i != p->primary) p->flag=1;
   }
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, primary,0, buf);
 
   /* assign owner among shared primaries */
 
-- 
2.43.0


From 7b8ce8baf53fb9584954671fc904ae6d848bf0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 11/20] fix: findpts releases a bound that the Newton step
 began on

newton_area/newton_vol decided whether to relax an active bound by the sign of
dr[d], which is zero when the iterate already lies on that bound; the search
then stopped, converged, in a corner although the distance still decreased
along an edge.
---
 src/findpts_el_2.c | 5 ++++-
 src/findpts_el_3.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index aad9aad..66421ca 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -349,7 +349,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
   double bnd[4] = { -1,1, -1,1 };
   double r0[2];
   double dr[2], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, relaxed=0;
   
   r0[0] = p->r[0], r0[1] = p->r[1];
   
@@ -456,6 +456,9 @@ static void newton_area(struct findpts_el_pt_2 *const out,
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
       else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      /* a step that began on the bound has dr[d]==0, which has no sign */
+      else if(dr[d]==0 && (c==1?y[d]:-y[d])>0 && !(relaxed>>d&1u))
+        flags &= ~(3u<<(2*d)), relaxed |= 1u<<d;
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 62561ff..b7e3708 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -539,7 +539,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
   double bnd[6] = { -1,1, -1,1, -1,1 };
   double r0[3];
   double dr[3], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, relaxed=0;
   r0[0]=p->r[0],r0[1]=p->r[1],r0[2]=p->r[2];
 #ifdef DIAGNOSTICS_1
   printf("newton_vol:\n");
@@ -694,6 +694,9 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
       else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      /* a step that began on the bound has dr[d]==0, which has no sign */
+      else if(dr[d]==0 && (c==1?y[d]:-y[d])>0 && !(relaxed>>d&1u))
+        flags &= ~(3u<<(2*d)), relaxed |= 1u<<d;
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
-- 
2.43.0


From 228827f1a1c406f8eb9fcc84df844a4186a48586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 12/20] fix: findpts_eval evaluates at the points it is given

The points redistributed by the first findpts_eval were used for every later
call up to the next findpts, whatever points were passed: wrong values, and
writes beyond the caller's array when fewer points were given.  They are now
reused only when every process passes the same points again.
---
 src/findpts_imp.h | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..12bb149 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -39,6 +39,7 @@
 #define findpts               GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_      ),D)
 #define findpts_eval          GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_eval_ ),D)
 #define setup_fev_aux         GS_TOKEN_PASTE(setup_fev_aux_,D)
+#define same_fev_aux          GS_TOKEN_PASTE(same_fev_aux_,D)
 
 struct hash_data {
   ulong hash_n;
@@ -217,7 +218,7 @@ struct findpts_data {
   struct crystal cr;
   struct findpts_local_data local;
   struct hash_data hash;
-  struct array savpt;
+  struct array savpt, savsrc;
   struct findpts_dummy_ms_data fdms;
   uint   fevsetup;
 };
@@ -261,7 +262,7 @@ void findptsms_free(struct findpts_data *fd)
   hash_free(&fd->hash);
   findptsms_local_free(&fd->local);
   crystal_free(&fd->cr);
-  if (fd->fevsetup==1) array_free(&fd->savpt);
+  if (fd->fevsetup==1) array_free(&fd->savpt), array_free(&fd->savsrc);
   free(fd);
 }
 
@@ -280,6 +281,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
 {
   if (fd->fevsetup==1) {
     array_free(&fd->savpt);
+    array_free(&fd->savsrc);
     fd->fevsetup=0;
   }
   const uint np = fd->cr.comm.np, id=fd->cr.comm.id;
@@ -558,6 +560,8 @@ static void setup_fev_aux(
       el   = (const   uint*)((const char*)el  +  el_stride);
     }
     src.n = pt - (struct eval_src_pt*)src.ptr;
+    array_init(struct eval_src_pt,&fd->savsrc,src.n);
+    array_cat(struct eval_src_pt,&fd->savsrc,src.ptr,src.n);
     sarray_transfer(struct eval_src_pt,&src,proc,1,&fd->cr);
   }
   /* setup space for source points*/
@@ -580,6 +584,30 @@ static void setup_fev_aux(
   }
 }
 
+/* are these the points last sent out by setup_fev_aux? */
+static int same_fev_aux(
+  const uint   *const code_base, const unsigned code_stride,
+  const uint   *const proc_base, const unsigned proc_stride,
+  const uint   *const   el_base, const unsigned   el_stride,
+  const double *const    r_base, const unsigned    r_stride,
+  const uint npt, const struct findpts_data *const fd)
+{
+  #define  AT(T,var,i) (const T*)((const char*)var##_base+(i)*var##_stride)
+  const struct eval_src_pt *pt=fd->savsrc.ptr, *const end=pt+fd->savsrc.n;
+  uint index;
+  for(index=0;index<npt;++index) {
+    const double *const r = AT(double,r,index);
+    unsigned d;
+    if(*AT(uint,code,index)==CODE_NOT_FOUND) continue;
+    if(pt==end || pt->index!=index || pt->proc!=*AT(uint,proc,index)
+       || pt->el!=*AT(uint,el,index)) return 0;
+    for(d=0;d<D;++d) if(pt->r[d]!=r[d]) return 0;
+    ++pt;
+  }
+  return pt==end;
+  #undef AT
+}
+
 void findptsms_eval(
         double *const  out_base, const unsigned  out_stride,
   const uint   *const code_base, const unsigned code_stride,
@@ -589,6 +617,20 @@ void findptsms_eval(
   const uint npt,
   const double *const in, struct findpts_data *const fd)
 { 
+  /* reuse the saved points only when every process gives the same ones again */
+  if (fd->fevsetup==1) {
+    int same = same_fev_aux(code_base,code_stride,
+                            proc_base,proc_stride,
+                              el_base,  el_stride,
+                               r_base,   r_stride,
+                                  npt,         fd), buf;
+    comm_allreduce(&fd->cr.comm,gs_int,gs_min,&same,1,&buf);
+    if(!same) {
+      array_free(&fd->savpt);
+      array_free(&fd->savsrc);
+      fd->fevsetup=0;
+    }
+  }
   if (fd->fevsetup==0) {
     setup_fev_aux(code_base,code_stride,
                   proc_base,proc_stride,
@@ -703,6 +745,7 @@ void findpts_eval(
 #undef findpts_setup
 #undef setup_aux
 #undef setup_fev_aux
+#undef same_fev_aux
 #undef eval_out_pt
 #undef eval_src_pt
 #undef out_pt
-- 
2.43.0


From 521b4a9445dfb577208f4becd78dd6bbbbf0bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 13/20] fix: findpts_local releases what it allocates

---
 src/findpts_local_imp.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..2ce3545 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -433,15 +433,8 @@ void findpts_local(
   const uint npt, struct findpts_local_data *const fd,
   buffer *buf)
 {
-    unsigned int *sess_base = tmalloc(uint,1);
-    double *disti_base = tmalloc(double,1);
-    unsigned int *elsid_base = tmalloc(uint,1);
-    unsigned int *sess_match = tmalloc(uint,1);
-    *sess_base = 0;
-    *sess_match = 0;
-    *disti_base = 0;
-    *elsid_base = 0;
-    
+    uint sess = 0, elsid = 0, sess_match = 0;
+    double disti = 0;
 
     unsigned sess_stride=0;
     unsigned disti_stride=0;
@@ -452,10 +445,10 @@ void findpts_local(
             r_base,    r_stride,
         dist2_base,dist2_stride,
             x_base,    x_stride,
-         sess_base, sess_stride,
-        disti_base,disti_stride,
-        elsid_base,elsid_stride,
-        sess_match,npt,fd,buf);
+             &sess, sess_stride,
+            &disti,disti_stride,
+            &elsid,elsid_stride,
+       &sess_match,npt,fd,buf);
 }
 
 /* assumes points are already grouped by elements */
-- 
2.43.0


From 1d4c5d8a3192a450a4ab5a2af8376980ff7c21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 14/20] fix: Fortran findpts_setup leaks (2-D) or passes on
 uninitialised (3-D) session pointers

---
 src/findpts.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index c708fda..13f6f68 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -327,10 +327,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    unsigned int *nsid = tmalloc(uint,1);
-    double *distfint = tmalloc(double,1);
-    *nsid = 0;
-    *distfint = 0;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_2(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else if(h->ndim==3) {
@@ -344,8 +342,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    const uint *nsid;
-    const double *distfint;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_3(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else
-- 
2.43.0


From e6abbdac45c5c5bdc10e31aed3cd816a670e2833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 15/20] fix: findpts keeps the bounds of a point whose last
 step is rejected

When the step after one that merely found the active bounds was rejected, the
point reverted to its flags from before those bounds were known and, being
converged, was reported as inside the element however far away it was.
---
 src/findpts_el_2.c | 8 +++++++-
 src/findpts_el_3.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index 66421ca..9000c45 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -334,7 +334,13 @@ static int reject_prior_step_q(struct findpts_el_pt_2 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1];
     out->flags=p->flags>>5;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* the step began on the bounds it found active if it left r there */
+      unsigned d;
+      for(d=0;d<2;++d)
+        if(p->r[d]==p->oldr[d]) out->flags |= p->flags & 3u<<(2*d);
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index b7e3708..c79d0d3 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -524,7 +524,13 @@ static int reject_prior_step_q(struct findpts_el_pt_3 *const out,
     out->r[0]=p->oldr[0],out->r[1]=p->oldr[1],out->r[2]=p->oldr[2];
     out->flags=p->flags>>7;
     out->dist2p=-DBL_MAX;
-    if(pred < dist2*tol) out->flags|=CONVERGED_FLAG;
+    if(pred < dist2*tol) {
+      /* the step began on the bounds it found active if it left r there */
+      unsigned d;
+      for(d=0;d<3;++d)
+        if(p->r[d]==p->oldr[d]) out->flags |= p->flags & 3u<<(2*d);
+      out->flags|=CONVERGED_FLAG;
+    }
     return 1;
   }
 }
-- 
2.43.0


From a917f5b861321a1e542fafa2cefb4fd6997703dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:57 +0000
Subject: [PATCH 16/20] fix: comm_split without MPI left the new communicator
 uninitialised

---
 src/comm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/comm.h b/src/comm.h
index 72a54fe..b128b45 100644
--- a/src/comm.h
+++ b/src/comm.h
@@ -191,6 +191,7 @@ static void comm_split_(const struct comm *s, int bin, int key, struct comm *d,
   MPI_Comm_free(&nc);
 #else
   if(s->np!=1) fail(1,file,line,"%s not compiled with -DMPI\n",file);
+  d->id = s->id, d->np = s->np;
 #endif
 }
 #define comm_split(s, bin, key, d) comm_split_(s, bin, key, d, __FILE__, __LINE__)
-- 
2.43.0


From 98de7181b0c03cab7d225e8393eb5b913d24d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 17/20] fix: comm_iallreduce without MPI left the result out of
 its output buffer

---
 src/comm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comm.c b/src/comm.c
index d00da4d..7036490 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -180,8 +180,8 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
-  memcpy(buf,v,vn*gs_dom_size[dom]); /* the result is expected in buf */
 #endif
+  memcpy(buf,v,vn*gs_dom_size[dom]); /* the result is expected in buf */
 }
 
 double comm_dot(const struct comm *comm, double *v, double *w, uint n)
-- 
2.43.0


From 0a6772e44df2da43091d52dc503ecd901a8f8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 18/20] fix: Fortran findpts set-up passes the element sizes as
 unsigned whatever the width of uint

---
 src/findpts.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index 13f6f68..f331441 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -268,7 +268,7 @@ void ffindptsms_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -281,7 +281,7 @@ void ffindptsms_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
@@ -319,7 +319,7 @@ void ffindpts_setup(sint *const handle,
   if(h->ndim==2) {
     struct findpts_data_2 *const fd = tmalloc(struct findpts_data_2,1);
     const double *elx[2];
-    uint n[2], m[2];
+    unsigned n[2], m[2];
     elx[0]=xm,elx[1]=ym;
     n[0]=*nr,n[1]=*ns;
     m[0]=*mr,m[1]=*ms;
@@ -334,7 +334,7 @@ void ffindpts_setup(sint *const handle,
   } else if(h->ndim==3) {
     struct findpts_data_3 *const fd = tmalloc(struct findpts_data_3,1);
     const double *elx[3];
-    uint n[3], m[3];
+    unsigned n[3], m[3];
     elx[0]=xm,elx[1]=ym,elx[2]=zm;
     n[0]=*nr,n[1]=*ns,n[2]=*nt;
     m[0]=*mr,m[1]=*ms,m[2]=*mt;
-- 
2.43.0


From 34e1837e2a49c41a1ad887513ecc46a50e7f9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 19/20] fix: findpts session numbers have the width of uint
 throughout

---
 src/findpts_imp.h       | 6 +++---
 src/findpts_local.h     | 8 ++++----
 src/findpts_local_imp.h | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 12bb149..91f862b 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -210,7 +210,7 @@ static void hash_build(struct hash_data *const p,
 static void hash_free(struct hash_data *p) { free(p->offset); }
 
 struct findpts_dummy_ms_data {
-    unsigned int *nsid;
+    uint         *nsid;
     double       *distfint;
 };
 
@@ -703,8 +703,8 @@ void findpts(      uint   *const  code_base   , const unsigned  code_stride   ,
        printf("Please use findptsms\n");
        die(1);
     }
-    unsigned int sess_base = 0;
-    unsigned int sess_match = 0;
+    uint sess_base = 0;
+    uint sess_match = 0;
     unsigned sess_stride = 0;
 
     findptsms( code_base, code_stride,
diff --git a/src/findpts_local.h b/src/findpts_local.h
index 30be675..dcbfc17 100644
--- a/src/findpts_local.h
+++ b/src/findpts_local.h
@@ -26,7 +26,7 @@ struct findpts_local_hash_data_2 {
 struct findpts_local_data_2 {
   unsigned ntot;
   const double *elx[2];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_2 *obb;
   struct findpts_local_hash_data_2 hd;
   struct findpts_el_data_2 fed;
@@ -38,7 +38,7 @@ struct findpts_local_data_2 {
 
 void findptsms_local_setup_2(struct findpts_local_data_2 *const fd,
                            const double *const elx[2],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[2], const uint nel,
                            const unsigned m[2], const double bbox_tol,
@@ -105,7 +105,7 @@ struct findpts_local_hash_data_3 {
 struct findpts_local_data_3 {
   unsigned ntot;
   const double *elx[3];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox_3 *obb;
   struct findpts_local_hash_data_3 hd;
   struct findpts_el_data_3 fed;
@@ -117,7 +117,7 @@ struct findpts_local_data_3 {
 
 void findptsms_local_setup_3(struct findpts_local_data_3 *const fd,
                            const double *const elx[3],
-                           const unsigned *const nsid,
+                           const uint *const nsid,
                            const double *const distfint,
                            const unsigned n[3], const uint nel,
                            const unsigned m[3], const double bbox_tol,
diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 2ce3545..f5f6233 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -200,7 +200,7 @@ static void hash_free(struct hash_data *p) { free(p->offset); }
 struct findpts_local_data {
   unsigned ntot;
   const double *elx[D];
-  const unsigned *nsid;
+  const uint *nsid;
   struct obbox *obb;
   struct hash_data hd;
   struct findpts_el_data fed;
@@ -212,7 +212,7 @@ struct findpts_local_data {
 
 void findptsms_local_setup(struct findpts_local_data *const fd,
                          const double *const elx[D],
-                         const unsigned *const nsid,
+                         const uint *const nsid,
                          const double *const distfint,
                          const unsigned n[D], const uint nel,
                          const unsigned m[D], const double bbox_tol,
@@ -407,7 +407,7 @@ void findpts_local_setup(struct findpts_local_data *const fd,
                          const unsigned npt_max, const double newt_tol)
 {
   uint ims=0;
-  unsigned int nsid = 0;
+  uint nsid = 0;
   double distfint = 0.;
   findptsms_local_setup(fd,
                         elx,
-- 
2.43.0


From 3a76bf13bfd04f51c33cbac4aaccc4c291220176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:44 +0000
Subject: [PATCH 20/20] fix: the crystal router does not call MPI in a build
 without MPI

---
 src/crystal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crystal.c b/src/crystal.c
index d7eab1f..be8b584 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -141,7 +141,11 @@ void crystal_router(struct crystal *p)
       fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
         "INT_MAX)\n", p->comm.id, send_n_long);
       fflush(stderr);
+#ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
+#else
+      die(EXIT_FAILURE);
+#endif
     }
 
     recvn = 1, targ = n-1-(id-bl)+bl;
-- 
2.43.0

