From 06d69b4e32e5c526a85b92340e4b936b4ae79471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 01/24] fix: copy both halves of complex data in out-of-place
 FFTs

When no initial remap is needed, in is copied to out; insize/outsize count
complex values, so only half of the data was copied.
---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..347524b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..7537f3f 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From 50c8010326b084711f3ed352abb4b52b7b84c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 02/24] fix: final remap of an out-of-place backward FFT must
 use transformed data

compute() remapped the caller's input array instead of the intermediate result.
---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 347524b..8860c06 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 7537f3f..59e19d8 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From 99c4e67ddb0faa8473f22fab763da85da9e8a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 03/24] fix: scale as many values as a backward FFT leaves on
 this proc

Scaling is only done after a backward FFT, when data is in the input layout.
---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 8860c06..2efa68c 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 59e19d8..b2b7b37 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From 52cac60c6ed5340e7b67e6d76210c09216e7da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 04/24] fix: second stage of a 2-stage remap must start from
 the first stage's output

Matters for only_one_remap() with exchange=1 and in != out.
---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 2efa68c..82b342e 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index b2b7b37..708983a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 24df496ebdcb03f13499a6a23a4e4aea02ee439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 05/24] fix: include brick to fast-pencil remap of backward 3d
 FFT in buffer sizes

---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 708983a..52a0f62 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From 8f2f736ac2b681c2a5d4a37088f0598bd8d31dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 06/24] fix: use size of PACK_DATA in 2d memcpy pack/unpack

sizeof(double) overruns buffers in single precision.
---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From 46e570f7750dbbb92198878522148eec7c5788c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 07/24] fix: all procs must pick the same settings when tuning

Each proc compared its own timings; different choices on different procs
lead to mismatched communication and a hang.
---
 src/fft2d.cpp | 8 ++++++++
 src/fft3d.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 82b342e..bb7b01e 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -863,6 +863,10 @@ void FFT2d::tune(int user_nfast, int user_nslow,
         deallocate_setup();
         if (memoryflag) deallocate_setup_memory();
         
+        // insure all procs compare the exact same time
+
+        MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
         if (tfft[ntrial] < besttime) {
           besttime = tfft[ntrial];
           cbest = cflag;
@@ -903,6 +907,10 @@ void FFT2d::tune(int user_nfast, int user_nslow,
       deallocate_setup();
       if (memoryflag) deallocate_setup_memory();
       
+      // insure all procs compare the exact same time
+
+      MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
       if (tfft[ntrial] < besttime) {
         besttime = tfft[ntrial];
         pbest = pflag;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 52a0f62..2c7c62d 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -915,6 +915,10 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
         deallocate_setup();
         if (memoryflag) deallocate_setup_memory();
         
+        // insure all procs compare the exact same time
+
+        MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
         if (tfft[ntrial] < besttime) {
           besttime = tfft[ntrial];
           cbest = cflag;
@@ -958,6 +962,10 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
       deallocate_setup();
       if (memoryflag) deallocate_setup_memory();
       
+      // insure all procs compare the exact same time
+
+      MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
       if (tfft[ntrial] < besttime) {
         besttime = tfft[ntrial];
         pbest = pflag;
-- 
2.43.0


From 1f217e57b77a9ac0d0bc83305ccd95cb435fa5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:18 +0000
Subject: [PATCH 08/24] fix: allow a 2d FFT to be destroyed before setup

The destructor dereferenced NULL 1d FFT plans; do the same as FFT3d.
---
 src/fft2d.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index bb7b01e..7fe8b01 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -183,24 +183,8 @@ FFT2d::~FFT2d()
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
-
-  // only deallocated send/recv bufs if allocated internally
-
-  if (memoryflag) {
-    memory->sfree(sendbuf);
-    memory->sfree(recvbuf);
-  }
+  if (setupflag) deallocate_setup();
+  if (memoryflag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 632b76d40aad9991b71c29906304273150ca6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:18 +0000
Subject: [PATCH 09/24] fix: reject a second setup of a 2d FFT

setup() can only be called once; FFT3d already checks this.
---
 src/fft2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 7fe8b01..8cda53d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -218,6 +218,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
-- 
2.43.0


From 8f9f542cedf01c136516739df86bc1f719eb6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:18 +0000
Subject: [PATCH 10/24] fix: allow a Remap to be destroyed before setup

The destructor used uninitialized pointers and an uninitialized communicator.
---
 src/remap2d.cpp | 6 ++++++
 src/remap3d.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..bebf038 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,10 +90,16 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
+  memoryflag = 0;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..37406c9 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,10 +90,16 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
+  memoryflag = 0;
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 77cb1d0a25d8eb9026b18efeb496231b29d96343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:37 +0000
Subject: [PATCH 11/24] fix: changing collective of a Remap after setup must
 have no effect

As documented; it used to make remap() and the destructor use data structures
that setup() did not create, or leak those it did.
---
 src/remap2d.cpp | 8 +++++---
 src/remap2d.h   | 1 +
 src/remap3d.cpp | 8 +++++---
 src/remap3d.h   | 1 +
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index bebf038..f235986 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -100,6 +100,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
 
   setupflag = 0;
   memoryflag = 0;
+  collectiveflag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -113,7 +114,7 @@ Remap2d::~Remap2d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collectiveflag) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap2d::~Remap2d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collectiveflag) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -183,6 +184,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_2d *inarray,*outarray;
 
   setupflag = 1;
+  collectiveflag = collective;
 
   permute = user_permute;
   memoryflag = user_memoryflag;
@@ -599,7 +601,7 @@ void Remap2d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collectiveflag) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap2d.h b/src/remap2d.h
index 52a3c57..fb6ba4e 100644
--- a/src/remap2d.h
+++ b/src/remap2d.h
@@ -46,6 +46,7 @@ class Remap2d {
 
   int permute;                      // permutation setting = 0,1
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collectiveflag;               // collective setting used by setup()
 
   // point to point communication
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 37406c9..b9bcfc0 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -100,6 +100,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
 
   setupflag = 0;
   memoryflag = 0;
+  collectiveflag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -113,7 +114,7 @@ Remap3d::~Remap3d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collectiveflag) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap3d::~Remap3d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collectiveflag) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -188,6 +189,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_3d *inarray,*outarray;
 
   setupflag = 1;
+  collectiveflag = collective;
 
   permute = user_permute;
   memoryflag = user_memoryflag;
@@ -646,7 +648,7 @@ void Remap3d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collectiveflag) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap3d.h b/src/remap3d.h
index afc58d8..4131e8c 100644
--- a/src/remap3d.h
+++ b/src/remap3d.h
@@ -47,6 +47,7 @@ class Remap3d {
 
   int permute;                      // permutation setting = 0,1,2
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collectiveflag;               // collective setting used by setup()
 
   // point to point communication
 
-- 
2.43.0


From 49b068c69e13491f9aa2fcea722b3d9339818c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:54 +0000
Subject: [PATCH 12/24] fix: changing memoryflag of an FFT after setup must
 have no effect

As documented; it used to make the destructor free caller-provided buffers or
leak internal ones, and setup_memory() accept or reject the wrong calls.
---
 src/fft2d.cpp | 7 +++++--
 src/fft2d.h   | 1 +
 src/fft3d.cpp | 7 +++++--
 src/fft3d.h   | 1 +
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 8cda53d..0ce9c72 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -169,6 +169,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  internal_memory_flag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -184,7 +185,7 @@ FFT2d::~FFT2d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (internal_memory_flag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -417,6 +418,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  internal_memory_flag = memoryflag;
+
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -481,7 +484,7 @@ void FFT2d::deallocate_setup()
 void FFT2d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (internal_memory_flag) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft2d.h b/src/fft2d.h
index 411da1f..ea8bb08 100644
--- a/src/fft2d.h
+++ b/src/fft2d.h
@@ -63,6 +63,7 @@ class FFT2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int internal_memory_flag;         // memoryflag setting used by setup()
 
   class Memory *memory;
   class Error *error;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 2c7c62d..3ba566b 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -175,6 +175,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  internal_memory_flag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -190,7 +191,7 @@ FFT3d::~FFT3d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (internal_memory_flag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -463,6 +464,8 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  internal_memory_flag = memoryflag;
+
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -530,7 +533,7 @@ void FFT3d::deallocate_setup()
 void FFT3d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (internal_memory_flag) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft3d.h b/src/fft3d.h
index 17ba5ee..d20d752 100644
--- a/src/fft3d.h
+++ b/src/fft3d.h
@@ -68,6 +68,7 @@ class FFT3d {
  private:
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int internal_memory_flag;         // memoryflag setting used by setup()
 
   class Memory *memory;
   class Error *error;
-- 
2.43.0


From 2e60d7f70bed293b1908a249caf07418770ad1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:54 +0000
Subject: [PATCH 13/24] fix: only_one_remap() must fill out when the last remap
 is not needed

The first remap already copies in to out in this case.
---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 0ce9c72..cf564c6 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -629,6 +629,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
     }
 
   } else {
@@ -639,6 +640,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
     }
   }
 }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 3ba566b..81d5729 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -689,6 +689,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midslow) remap(in,out,remap_midslow);
     } else if (which == 4) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_DATA));
     }
 
   } else {
@@ -701,6 +702,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midfast) remap(in,out,remap_midfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,insize*sizeof(FFT_DATA));
     }
   }
 }
-- 
2.43.0


From de30a30b310d60d79e7cd4a59ac867247da03fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:20 +0000
Subject: [PATCH 14/24] fix: pass setup_memory() buffers by value in Fortran
 interface

The C function expects the buffer addresses, not addresses of the c_ptrs.
---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0


From 078778b8e4ca839983b20602876ed2f42fb2b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:41 +0000
Subject: [PATCH 15/24] fix: tune() must not perform more FFTs per trial than
 requested

When dropping the 1d FFT and remap timings to respect tmax, niter could be
set larger than the caller's value.
---
 src/fft2d.cpp | 4 +++-
 src/fft3d.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index cf564c6..9c02311 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -743,6 +743,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
 
   double timetotal;
   int nruns = 10;
+  int user_niter = niter;
   if (tflag) timetotal = nruns * (timesetup + 3*niter*timefft);
   else timetotal = nruns * (timesetup + niter*timefft);
 
@@ -751,7 +752,8 @@ void FFT2d::tune(int user_nfast, int user_nslow,
     else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
     if (niter <= 0) {
       tflag = 0;
-      niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      niter = MIN(user_niter,
+                  static_cast<int> ((tmax/nruns-timesetup) / timefft));
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 81d5729..08ddf13 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -807,6 +807,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
 
   double timetotal;
   int nruns = 10;
+  int user_niter = niter;
   if (tflag) timetotal = nruns * (timesetup + 3*niter*timefft);
   else timetotal = nruns * (timesetup + niter*timefft);
 
@@ -815,7 +816,8 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
     else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
     if (niter <= 0) {
       tflag = 0;
-      niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      niter = MIN(user_niter,
+                  static_cast<int> ((tmax/nruns-timesetup) / timefft));
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
-- 
2.43.0


From 84634f66fb23ba2c6f83b7b5047215e0e9ba8824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:08 +0000
Subject: [PATCH 16/24] fix: report failed allocation of the all2all group of a
 remap

---
 src/remap2d.cpp | 6 ++++--
 src/remap3d.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index f235986..cc5a87a 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -397,9 +397,10 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
-    for (i = 0; i < nprocs; i++) pflag[i] = 0;
-
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag || !pgroup) error->one("Could not allocate all2all group");
+
+    for (i = 0; i < nprocs; i++) pflag[i] = 0;
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -452,6 +453,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (ngroup && !pgroup) error->one("Could not allocate all2all group");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index b9bcfc0..6caeaea 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -444,9 +444,10 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
-    for (i = 0; i < nprocs; i++) pflag[i] = 0;
-
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag || !pgroup) error->one("Could not allocate all2all group");
+
+    for (i = 0; i < nprocs; i++) pflag[i] = 0;
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -499,6 +500,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (ngroup && !pgroup) error->one("Could not allocate all2all group");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
-- 
2.43.0


From f32dc52e23afe35d03becb504fe604f86ee9fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:12 +0000
Subject: [PATCH 17/24] fix: report failed allocation of KISS FFT plans

---
 src/fft2d.cpp | 4 ++++
 src/fft3d.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 9c02311..7854be3 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1463,6 +1463,10 @@ void FFT2d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward ||
+      !fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not allocate 1d FFT plans");
 }
 
 void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 08ddf13..31ec4f5 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1682,6 +1682,11 @@ void FFT3d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward ||
+      !fft_mid->plan_forward || !fft_mid->plan_backward ||
+      !fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not allocate 1d FFT plans");
 }
 
 void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
-- 
2.43.0


From 35c475a2b2ae711346c4c5644f61cdc91cd4db67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 18/24] fix: setup_memory() of Python interface must use the
 caller's arrays

---
 src/fftmpi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 4b7a2d4..c36ff1f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -210,11 +210,11 @@ class FFT3dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft3d_setup_memory(self.fft,csendbuf,crecvbuf)
       
@@ -464,11 +464,11 @@ class FFT2dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft2d_setup_memory(self.fft,csendbuf,crecvbuf)
       
-- 
2.43.0


From 0f249107fb905a1a20fdbb63ce9bfcfcc7882168 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 19/24] fix: create Remap objects of Python interface with the
 arguments of the C interface

---
 src/fftmpi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index c36ff1f..de52a20 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -574,7 +574,7 @@ class Remap3dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap3d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap3d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap3d_create.restype = None
 
     self.lib.remap3d_destroy.argtypes = [c_void_p]
@@ -597,14 +597,14 @@ class Remap3dMPI:
       self.lib.remap3d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
            POINTER(c_double),POINTER(c_double)]
-    self.lib.remap3d_compute.restype = None
+    self.lib.remap3d_remap.restype = None
 
     # create an instance of Remap3d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap3d
   
@@ -678,7 +678,7 @@ class Remap2dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap2d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap2d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap2d_create.restype = None
 
     self.lib.remap2d_destroy.argtypes = [c_void_p]
@@ -700,14 +700,14 @@ class Remap2dMPI:
       self.lib.remap2d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
          POINTER(c_double),POINTER(c_double)]
-    self.lib.remap2d_compute.restype = None
+    self.lib.remap2d_remap.restype = None
 
     # create an instance of Remap2d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap2d
   
-- 
2.43.0


From d78639337195e62c41fe04fbff8c6e1f9677dc43 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 20/24] fix: setup() of Python Remap objects must return the
 buffer sizes

---
 src/fftmpi.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index de52a20..7c57769 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -586,7 +586,7 @@ class Remap3dMPI:
     self.lib.remap3d_setup.argtypes = \
       [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,
        c_int,c_int,c_int,c_int,c_int,c_int,
-       c_int,c_int,c_int,POINTER(c_int)]
+       c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap3d_setup.restype = None
     
     if precision == 1:
@@ -623,9 +623,14 @@ class Remap3dMPI:
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
@@ -689,7 +694,7 @@ class Remap2dMPI:
     
     self.lib.remap2d_setup.argtypes = \
     [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,c_int,c_int,
-        c_int,c_int,c_int,POINTER(c_int)]
+        c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap2d_setup.restype = None
     
     if precision == 1:
@@ -725,9 +730,14 @@ class Remap2dMPI:
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
-- 
2.43.0


From 9be78edc7cd7f082176a8278b0c059ed49cc6238 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:27 +0000
Subject: [PATCH 21/24] fix: handle of Python Remap objects must not hide their
 remap() method

---
 src/fftmpi.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 7c57769..c4a0c7f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -601,31 +601,31 @@ class Remap3dMPI:
 
     # create an instance of Remap3d
 
-    self.remap = c_void_p()
+    self.remapptr = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.remapptr))
 
   # destroy instance of Remap3d
   
   def __del__(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.remapptr)
 
   def destroy(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.remapptr)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap3d_set(self.remap,keyword,value)
+    self.lib.remap3d_set(self.remapptr,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
     sendsize = c_int()
     recvsize = c_int()
-    self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
+    self.lib.remap3d_setup(self.remapptr,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
                            nqty,permute,memoryflag,
                            byref(sendsize),byref(recvsize))
@@ -654,7 +654,7 @@ class Remap3dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap3d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap3d_remap(self.remapptr,cin,cout,csendbuf,crecvbuf)
 
 # ------------------------------------------------------------------
 # instantiate remap2dMPI thru its C-interface
@@ -709,30 +709,30 @@ class Remap2dMPI:
 
     # create an instance of Remap2d
 
-    self.remap = c_void_p()
+    self.remapptr = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.remapptr))
 
   # destroy instance of Remap2d
   
   def __del__(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.remapptr)
 
   def destroy(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.remapptr)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap2d_set(self.remap,keyword,value)
+    self.lib.remap2d_set(self.remapptr,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
     sendsize = c_int()
     recvsize = c_int()
-    self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
+    self.lib.remap2d_setup(self.remapptr,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
                            nqty,permute,memoryflag,
                            byref(sendsize),byref(recvsize))
@@ -761,4 +761,4 @@ class Remap2dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap2d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap2d_remap(self.remapptr,cin,cout,csendbuf,crecvbuf)
-- 
2.43.0


From 5db05059658940393eeed6d98e08125d37d63cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 22/24] fix: a large iteration count must not overflow the time
 estimate of tune()

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 7854be3..6c7d941 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -744,7 +744,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   double timetotal;
   int nruns = 10;
   int user_niter = niter;
-  if (tflag) timetotal = nruns * (timesetup + 3*niter*timefft);
+  if (tflag) timetotal = nruns * (timesetup + 3.0*niter*timefft);
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 31ec4f5..e245d56 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -808,7 +808,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   double timetotal;
   int nruns = 10;
   int user_niter = niter;
-  if (tflag) timetotal = nruns * (timesetup + 3*niter*timefft);
+  if (tflag) timetotal = nruns * (timesetup + 3.0*niter*timefft);
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
-- 
2.43.0


From 5ccaed82dcb8bbbd18dad720749054b29f6e832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 23/24] fix: tune() must not convert an infinite iteration
 count to int

---
 src/fft2d.cpp | 10 ++++++----
 src/fft3d.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 6c7d941..8280d2e 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -748,12 +748,14 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
-    if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
-    else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+    double nfit = 0.0;
+    if (timefft > 0.0 && tmax/nruns > timesetup)
+      nfit = MIN((tmax/nruns-timesetup) / timefft,3.0*user_niter);
+    if (tflag) niter = static_cast<int> (nfit/3);
+    else niter = static_cast<int> (MIN(nfit,user_niter));
     if (niter <= 0) {
       tflag = 0;
-      niter = MIN(user_niter,
-                  static_cast<int> ((tmax/nruns-timesetup) / timefft));
+      niter = static_cast<int> (MIN(nfit,user_niter));
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index e245d56..e8928d1 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -812,12 +812,14 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
-    if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
-    else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+    double nfit = 0.0;
+    if (timefft > 0.0 && tmax/nruns > timesetup)
+      nfit = MIN((tmax/nruns-timesetup) / timefft,3.0*user_niter);
+    if (tflag) niter = static_cast<int> (nfit/3);
+    else niter = static_cast<int> (MIN(nfit,user_niter));
     if (niter <= 0) {
       tflag = 0;
-      niter = MIN(user_niter,
-                  static_cast<int> ((tmax/nruns-timesetup) / timefft));
+      niter = static_cast<int> (MIN(nfit,user_niter));
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
-- 
2.43.0


From 5a7c5df0a1b9b1ce233cb6a41f6533e06e2615b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 24/24] fix: bounds of pencils and bricks must not overflow an
 int for large grids on many procs

---
 src/fft2d.cpp | 16 ++++++++--------
 src/fft3d.cpp | 36 ++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 8280d2e..9ba0888 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -323,8 +323,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nslow/npfast2;
-    fast_jhi = (ipfast2+1)*nslow/npfast2 - 1;
+    fast_jlo = (bigint) ipfast2*nslow/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nslow/npfast2 - 1;
   }
 
   // remap from fast pencil layout to slow pencil layout
@@ -342,8 +342,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     slow_jlo = out_jlo;
     slow_jhi = out_jhi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
     slow_jlo = 0;
     slow_jhi = nslow - 1;
   }
@@ -365,10 +365,10 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nslow/npbrick2;
-    brick_jhi = (ipbrick2+1)*nslow/npbrick2 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nslow/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nslow/npbrick2 - 1;
   }
 
   // create Remap instances for 3 forward remaps
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index e8928d1..74557a3 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -336,22 +336,22 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nmid/npfast2;
-    fast_jhi = (ipfast2+1)*nmid/npfast2 - 1;
-    fast_klo = ipfast3*nslow/npfast3;
-    fast_khi = (ipfast3+1)*nslow/npfast3 - 1;
+    fast_jlo = (bigint) ipfast2*nmid/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nmid/npfast2 - 1;
+    fast_klo = (bigint) ipfast3*nslow/npfast3;
+    fast_khi = (bigint) (ipfast3+1)*nslow/npfast3 - 1;
   }
 
   // remap from fast pencil layout to mid pencil layout
   // always needed, b/c permutation changes
   // mid indices = data layout before/after 2nd set of FFTs
 
-  mid_ilo = ipmid1*nfast/npmid1;
-  mid_ihi = (ipmid1+1)*nfast/npmid1 - 1;
+  mid_ilo = (bigint) ipmid1*nfast/npmid1;
+  mid_ihi = (bigint) (ipmid1+1)*nfast/npmid1 - 1;
   mid_jlo = 0;
   mid_jhi = nmid - 1;
-  mid_klo = ipmid3*nslow/npmid3;
-  mid_khi = (ipmid3+1)*nslow/npmid3 - 1;
+  mid_klo = (bigint) ipmid3*nslow/npmid3;
+  mid_khi = (bigint) (ipmid3+1)*nslow/npmid3 - 1;
 
   // remap from mid pencil layout to slow pencil layout
   // always needed, b/c permutation changes
@@ -370,10 +370,10 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     slow_klo = out_klo;
     slow_khi = out_khi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
-    slow_jlo = ipslow2*nmid/npslow2;
-    slow_jhi = (ipslow2+1)*nmid/npslow2 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
+    slow_jlo = (bigint) ipslow2*nmid/npslow2;
+    slow_jhi = (bigint) (ipslow2+1)*nmid/npslow2 - 1;
     slow_klo = 0;
     slow_khi = nslow - 1;
   }
@@ -396,12 +396,12 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nmid/npbrick2;
-    brick_jhi = (ipbrick2+1)*nmid/npbrick2 - 1;
-    brick_klo = ipbrick3*nslow/npbrick3;
-    brick_khi = (ipbrick3+1)*nslow/npbrick3 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nmid/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nmid/npbrick2 - 1;
+    brick_klo = (bigint) ipbrick3*nslow/npbrick3;
+    brick_khi = (bigint) (ipbrick3+1)*nslow/npbrick3 - 1;
   }
 
   // create Remap instances for 4 forward remaps
-- 
2.43.0

