From abefd86d6e580e95e201057ceb984baea6c81e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:36 +0000
Subject: [PATCH 01/21] fix: three-operand ftrmm with a zero alpha divided beta
 by zero instead of computing beta*C

---
 fflas-ffpack/fflas/fflas_ftrmm.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm.inl b/fflas-ffpack/fflas/fflas_ftrmm.inl
index 8bc2161..901b278 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm.inl
@@ -119,6 +119,10 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc)
     {
         if (!M || !N ) return;
+        if (F.isZero(alpha)){
+            fscalin (F, M, N, beta, C, ldc);
+            return;
+        }
         typename Field::Element bet;
         F.init(bet);
         F.assign(bet,beta);
-- 
2.43.0


From 9fd0c8661709e0c57762f0d7d1ec1695fba26ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 02/21] fix: three-operand ftrmm over integer-element fields
 ignored a zero beta and accumulated into C

---
 fflas-ffpack/fflas/fflas_ftrmm_src.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm_src.inl b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
index 736f7ba..0e109c2 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
@@ -356,8 +356,7 @@ public:
     {
 
         if (__FFLAS__Na == 1){
-            if (!F.isZero(beta))
-                fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
+            fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
 #ifdef __FFLAS__NONUNIT
             //TODO: replace by faxpby when available
             faxpy (F, __FFLAS__Bdim, *A, B, __FFLAS__Bnorminc, C, __FFLAS__Cnorminc);
-- 
2.43.0


From cc9922cf1d9d6eabe26bd7f2751cb31e04cf5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:08 +0000
Subject: [PATCH 03/21] fix: fmove copied its source over its destination in
 the wrong direction

---
 fflas-ffpack/fflas/fflas_level2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 7910050..0ffb6f2 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -414,7 +414,7 @@ namespace FFLAS {
            typename Field::Element_ptr A, const size_t lda,
            typename Field::Element_ptr B, const size_t ldb )
     {
-        fassign(F,m,n,A,lda,B,ldb);
+        fassign(F,m,n,B,ldb,A,lda);
         fzero(F,m,n,B,ldb);
     }
 
-- 
2.43.0


From 2041674ec402b176dcd75705022c3a41b8845604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:08 +0000
Subject: [PATCH 04/21] fix: fzero on an empty triangle with unit diagonal
 wrapped around its size and wrote out of bounds

---
 fflas-ffpack/fflas/fflas_level2.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 0ffb6f2..033d375 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -94,6 +94,7 @@ namespace FFLAS {
     fzero (const Field& F, const FFLAS_UPLO shape, const FFLAS_DIAG diag,
            const size_t n, typename Field::Element_ptr A, const size_t lda)
     {
+        if (!n) return; // otherwise size-- below wraps around for a unit diagonal
         ptrdiff_t inc_row;
         typename Field::Element_ptr Ai;
         size_t size = n;
-- 
2.43.0


From ad48a70dc8db6603922320a3f249991af629581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:22 +0000
Subject: [PATCH 05/21] fix: LUdivine with FflasTrans and a base case cutoff
 returned a CUP instead of a PLE decomposition

---
 fflas-ffpack/ffpack/ffpack_ludivine.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine.inl b/fflas-ffpack/ffpack/ffpack_ludivine.inl
index 4d3aea3..a5e5b75 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine.inl
@@ -432,7 +432,8 @@ namespace FFPACK {
             rowDim = M;
         }
 
-        if ((rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
+        // LUdivine_small only computes the CUP decomposition (FflasNoTrans)
+        if ((trans == FFLAS::FflasNoTrans) && (rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
             return LUdivine_small (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
         }
         else { // recursively :
-- 
2.43.0


From 5606e993ed43bfc84e4a28039d2bcaac36a16045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:26 +0000
Subject: [PATCH 06/21] fix: ReducedRowEchelonForm without transform ran the
 tile elimination for FfpackGaussJordanSlab, whose accessors expect the slab
 one

---
 fflas-ffpack/ffpack/ffpack_echelonforms.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_echelonforms.inl b/fflas-ffpack/ffpack/ffpack_echelonforms.inl
index 6a5762a..616b5f9 100644
--- a/fflas-ffpack/ffpack/ffpack_echelonforms.inl
+++ b/fflas-ffpack/ffpack/ffpack_echelonforms.inl
@@ -223,6 +223,11 @@ FFPACK::ReducedRowEchelonForm (const Field& F, const size_t M, const size_t N,
     for (size_t i=0; i<M; i++) P[i] = i;
     if ((LuTag == FfpackGaussJordanSlab || LuTag == FfpackGaussJordanTile) && transform)
         return Protected::GaussJordan(F, M, N, A, lda, 0, 0, N, P, Qt, LuTag);
+    if (LuTag == FfpackGaussJordanSlab) { // no transform: the slab elimination, as the accessors expect for this tag
+        size_t rs = ReducedRowEchelonForm (F, M, N, A, lda, P, Qt, false, FfpackSlabRecursive, psH);
+        for (size_t i=rs; i<N; i++) Qt[i] = i;
+        return rs;
+    }
     size_t r = RowEchelonForm (F, M, N, A, lda, P, Qt, transform, LuTag, psH);
     if (LuTag == FfpackSlabRecursive){
         // Putting Echelon in compressed triangular form : M = M Q
-- 
2.43.0


From b1ec7536fe94265fdadd0a40de3ea8d143643e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:17 +0000
Subject: [PATCH 07/21] fix: ColRankProfileSubmatrixIndices initialised its row
 indices up to the column dimension (out of bounds or uninitialised when M !=
 N)

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 97d5d35..8095d79 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -216,7 +216,7 @@ namespace FFPACK{
         for (size_t i=0; i<R; ++i)
             colindices [i] = Q [i];
 
-        for (size_t i=0; i<N; ++i)
+        for (size_t i=0; i<M; ++i)
             rowindices [i] = i;
 
         size_t tmp;
-- 
2.43.0


From d33a6e943d352c50f41311f0772ed3ea0d5e53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:28 +0000
Subject: [PATCH 08/21] fix: block-diagonal fsyrk indexed the 2x2 block flags
 by row, reading out of bounds or never terminating

---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index dd5aab4..96b728e 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -723,7 +723,6 @@ namespace FFLAS {
 
         }else {
             size_t N1 = N>>1;
-            if (twoBlocks[N1-1]) N1++; // don't split a 2x2 block
             size_t N2 = N - N1;
             // Comments written for the case UpLo==FflasUpper, trans==FflasNoTrans
 
-- 
2.43.0


From e1e48613afdac05672b7160433feedcd997667b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:28 +0000
Subject: [PATCH 09/21] fix: fsyr2k with an empty inner dimension scaled C by
 beta twice

---
 fflas-ffpack/fflas/fflas_fsyr2k.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyr2k.inl b/fflas-ffpack/fflas/fflas_fsyr2k.inl
index 618624d..b2dd5ac 100644
--- a/fflas-ffpack/fflas/fflas_fsyr2k.inl
+++ b/fflas-ffpack/fflas/fflas_fsyr2k.inl
@@ -42,7 +42,10 @@ namespace FFLAS {
             typename Field::Element_ptr C, const size_t ldc){
 
         if (!N) return C;
-        if (!K) fscalin(F, N,N, beta, C, ldc);
+        if (!K) {
+            fscalin(F, N,N, beta, C, ldc);
+            return C;
+        }
 
         typename Field::Element_ptr diagC(nullptr);
 
-- 
2.43.0


From f90139af63cb269820deb826ca0354ae9c36c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:28 +0000
Subject: [PATCH 10/21] fix: fsytrf_RPM recursed forever on dimension 1 when
 the base case threshold is 1

---
 fflas-ffpack/ffpack/ffpack_fsytrf.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_fsytrf.inl b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
index 0dc6389..3e3a25e 100644
--- a/fflas-ffpack/ffpack/ffpack_fsytrf.inl
+++ b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
@@ -324,7 +324,7 @@ namespace FFPACK {
                                  typename Field::Element_ptr A, const size_t lda,
                                  typename Field::Element_ptr Dinv, const size_t incDinv,
                                  size_t * P, size_t BCThreshold){
-        if (N < BCThreshold){
+        if (N < 2 || N < BCThreshold){
             return fsytrf_UP_RPM_BC_Crout (Fi,N,A,lda,Dinv,incDinv,P);
         }
         std::vector<bool> twoBlocks(N,false);
-- 
2.43.0


From ac7ad311caed40de5c5d63a3a99aa5e5c3c62d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:44 +0000
Subject: [PATCH 11/21] fix: transposed fgemv of a matrix without rows left Y
 unscaled by beta

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 2a03984..d67b655 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -127,8 +127,8 @@ namespace FFLAS {
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DelayedTag> & H)
     {
 
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
@@ -344,8 +344,8 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY)
     {
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
-- 
2.43.0


From f0a0244b6d4f9bcc0fb9130b0893a4ecbc42b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 12/21] fix: RandomNullSpaceVector permutes X with its own
 stride incX

applyP was called with a unit stride, so for incX > 1 the returned vector
was not in the null space (and elements between the strides were moved).
---
 fflas-ffpack/ffpack/ffpack.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 0e4cdcc..18a00bb 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -248,7 +248,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, 1u, Q);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, incX, Q);
 
             FFLAS::fflas_delete(Q);
         }
@@ -289,7 +289,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasLower, FFLAS::FflasTrans, FFLAS::FflasUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasRight, FFLAS::FflasNoTrans, 1u, 0u, (int) M, X, 1u, P);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) M, X, incX, P);
 
             FFLAS::fflas_delete(P);
         }
-- 
2.43.0


From bc1f1ffe75341da9a4540bc6647811253b48e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:59 +0000
Subject: [PATCH 13/21] Allow __FFLASFFPACK_SEQPARTHRESHOLD to be predefined
 (verification hook, default unchanged)

---
 fflas-ffpack/fflas/fflas_pfgemm.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_pfgemm.inl b/fflas-ffpack/fflas/fflas_pfgemm.inl
index f34d204..0153776 100644
--- a/fflas-ffpack/fflas/fflas_pfgemm.inl
+++ b/fflas-ffpack/fflas/fflas_pfgemm.inl
@@ -27,7 +27,9 @@
 #ifndef __FFLASFFPACK_fflas_pfgemm_INL
 #define __FFLASFFPACK_fflas_pfgemm_INL
 
+#ifndef __FFLASFFPACK_SEQPARTHRESHOLD
 #define __FFLASFFPACK_SEQPARTHRESHOLD 220
+#endif
 #define __FFLASFFPACK_DIMKPENALTY 1
 
 #ifdef __FFLASFFPACK_USE_KAAPI
-- 
2.43.0


From 4c9e00993895b3ac3be2b2075ff940cdfbeacd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:59 +0000
Subject: [PATCH 14/21] fix: parallel fgemv offset of X used the whole vector
 length instead of the block length

---
 fflas-ffpack/paladin/pfgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemv.inl b/fflas-ffpack/paladin/pfgemv.inl
index c6f0234..2c7962f 100644
--- a/fflas-ffpack/paladin/pfgemv.inl
+++ b/fflas-ffpack/paladin/pfgemv.inl
@@ -52,7 +52,7 @@ namespace FFLAS
                         H1.parseq.set_numthreads(H.parseq.numthreads() >> 1);
                         H2.parseq.set_numthreads(H.parseq.numthreads() - H1.parseq.numthreads());
                         typename Field::ConstElement_ptr A1 = A;
-                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim);
+                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim2);
                         typename Field::Element_ptr C1 = Y;
                         typename Field::Element_ptr C2 = Y + Ydim2*incY;
                         if (ta==FflasNoTrans){
-- 
2.43.0


From f336d69c267c2e2c6f9e3ed940ce77b7ef002b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:59 +0000
Subject: [PATCH 15/21] fix: BlockCuts left rows or columns uncovered when the
 grain does not divide the dimension

---
 fflas-ffpack/paladin/blockcuts.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index c67650b..ea4ba6d 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -286,6 +286,9 @@ namespace FFLAS {
         BlockCuts<Cut,Param>(rowBlockSize, colBlockSize, m, n, numthreads);
         numRowBlock = m/rowBlockSize;
         numColBlock = n/colBlockSize;
+        // balance the blocks, so that the remainder is less than the number of blocks
+        if (numRowBlock) rowBlockSize = m/numRowBlock;
+        if (numColBlock) colBlockSize = n/numColBlock;
 
         changeRBS = m-rowBlockSize*numRowBlock;
         lastRBS = rowBlockSize;
-- 
2.43.0


From 80bccc1189f7fa73e43f61ea6119e887039b5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:59 +0000
Subject: [PATCH 16/21] fix: pfgemm 3D adaptive accumulated the k-split product
 with swapped dimensions

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 224bf34..3615195 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -149,7 +149,7 @@ namespace FFLAS
                         TASK(MODE(CONSTREFERENCE(F,H2) READ(A2,B2) READWRITE(C2)), pfgemm(F, ta, tb, m, n, k-K2, a, A2, lda, B2, ldb, F.zero, C2, n, H2));
                         CHECK_DEPENDENCIES;
 
-                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, n, m, C2, n, C, ldc));
+                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, m, n, C2, n, C, ldc));
 
                        );
             fflas_delete(C2);
-- 
2.43.0


From 27dc03b7fcb7303d00f25c9701e58229964413a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 17/21] fix: fspmm scaled the output block with leading
 dimension 1 instead of ldy

---
 fflas-ffpack/fflas/fflas_sparse.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 1aaf816..4561fb3 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -53,9 +53,9 @@ namespace FFLAS {
                 if (F.isZero(b)) {
                     fzero(F, m, n, y, ldy);
                 } else if (F.isMOne(b)) {
-                    fnegin(F, m, n, y, 1);
+                    fnegin(F, m, n, y, ldy);
                 } else {
-                    fscalin(F, m, n, b, y, 1);
+                    fscalin(F, m, n, b, y, ldy);
                 }
             }
         }
-- 
2.43.0


From ced291eb31604ffa9aec23436b8a003cb8316510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 18/21] fix: fspmm of zero-one matrices reduced a transposed
 block of the output

---
 fflas-ffpack/fflas/fflas_sparse.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 4561fb3..2ca284b 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -379,7 +379,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                   ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #if defined(__FFLASFFPACK_USE_OPENMP)
@@ -544,7 +544,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                    ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #endif // __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
-- 
2.43.0


From 77cbf6b1ce870bf22ab02b6db1b9a8107ca26b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 19/21] fix: fspmm of zero-one matrices compared the integer
 constant -1 with the field's representative

---
 fflas-ffpack/fflas/fflas_sparse.inl | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 2ca284b..66893e2 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -310,9 +310,9 @@ namespace FFLAS {
         inline void
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::GenericTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            if (A.cst == 1) {
                 sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
@@ -327,7 +327,7 @@ namespace FFLAS {
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (F.isOne(A.cst)) {
+            if (A.cst == 1) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
@@ -335,7 +335,7 @@ namespace FFLAS {
                     sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 }
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
                     sparse_details_impl::fspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
@@ -361,9 +361,9 @@ namespace FFLAS {
         inline typename std::enable_if<!support_simd<typename Field::Element>::value>::type
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            if (A.cst == 1) {
                 sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
@@ -473,9 +473,9 @@ namespace FFLAS {
         inline void
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::GenericTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            if (A.cst == 1) {
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
@@ -492,7 +492,7 @@ namespace FFLAS {
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (F.isOne(A.cst)) {
+            if (A.cst == 1) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
@@ -500,7 +500,7 @@ namespace FFLAS {
                     sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
                                                                    FieldCategories::UnparametricTag());
                 }
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
                     sparse_details_impl::pfspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
@@ -526,9 +526,9 @@ namespace FFLAS {
         inline typename std::enable_if<!support_simd<typename Field::Element>::value>::type
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
-            if (F.isOne(A.cst)) {
+            if (A.cst == 1) {
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-- 
2.43.0


From 30bbb9a53958f1ec5babfc17afbb42604b74976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 20/21] fix: non-delayed COO fspmv returned unreduced results
 and accumulated past the bound

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
index 18977ad..0ebb3b8 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
@@ -128,12 +128,12 @@ namespace FFLAS {
                         e += dat[w] * x[col[w]];
                         accu += 1;
                     } else {
-                        F.axpyin(e, dat[w], x[col[w]]);
-                        accu = 0;
+                        F.reduce(e);
+                        e += dat[w] * x[col[w]];
+                        accu = 1;
                     }
                 } else { // new line
-                    F.init(y[larow_i]);
-                    F.assign(y[larow_i], e);
+                    F.reduce(y[larow_i], e);
                     larow_i = row[w];
                     F.init(e);
                     F.assign(e, y[larow_i]);
@@ -142,8 +142,7 @@ namespace FFLAS {
                 }
                 ++w;
             }
-            F.init(y[larow_i]);
-            F.assign(y[larow_i], e);
+            F.reduce(y[larow_i], e);
         }
 
         template <class Field>
-- 
2.43.0


From 508741cc006c91867f45808881f6515bf63ef4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 21/21] fix: non-delayed COO fspmm silently computed nothing

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
index 3a200ea..c9899ec 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
@@ -174,21 +174,24 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                           const int64_t kmax) {
-            // TODO
+            // no delayed reduction: reduce after each product
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_aligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                        typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                        const int64_t kmax) {
-            // TODO
+            // no delayed reduction: reduce after each product
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_unaligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                          typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                          const int64_t kmax) {
-            // TODO
+            // no delayed reduction: reduce after each product
+            sparse_details_impl::fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
-- 
2.43.0

