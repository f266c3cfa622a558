From 054ecb40018290a93c6a235ee6a0657825e05473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:06 +0000
Subject: [PATCH 01/20] fix: fgemv must scale Y when op(A) has no column (Trans
 with M=0)

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 2a03984..1e9b4a1 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -127,9 +127,9 @@ namespace FFLAS {
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DelayedTag> & H)
     {
 
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
         size_t Xdim = (ta == FflasNoTrans)?N:M;
+        if (!Ydim) {return Y;}
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
                 fzero (F, Ydim, Y, incY);
@@ -344,9 +344,9 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY)
     {
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
         size_t Xdim = (ta == FflasNoTrans)?N:M;
+        if (!Ydim) {return Y;}
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
                 fzero (F, Ydim, Y, incY);
-- 
2.43.0


From dc9bd005c761010c3f8a2fd32686d93d4efbda04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:29 +0000
Subject: [PATCH 02/20] fix: fgemv over a converted field of cardinality 2
 returned Y unchanged

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 1e9b4a1..c394c11 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -100,7 +100,11 @@ namespace FFLAS {
             return Protected::fgemv_convert<float,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
         else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality() && F.cardinality() > 2)
             return Protected::fgemv_convert<double,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
-        else {
+        else if (F.cardinality() == 2) {
+            // no balanced representation modulo 2: compute over the field itself
+            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(F,0);
+            return fgemv (F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY,HG);
+        } else {
             FFPACK::failure()(__func__,__LINE__,"Invalid ConvertTo Mode for this field");
         }
         return Y;
-- 
2.43.0


From 317e08a0c9f2a0e2cc8a744e77a579964162768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:49 +0000
Subject: [PATCH 03/20] fix: three operand ftrmm with alpha=0 divided beta by
 zero

---
 fflas-ffpack/fflas/fflas_ftrmm.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm.inl b/fflas-ffpack/fflas/fflas_ftrmm.inl
index 8bc2161..a56e18b 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm.inl
@@ -119,6 +119,10 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc)
     {
         if (!M || !N ) return;
+        if (F.isZero(alpha)){
+            fscalin(F,M,N,beta,C,ldc);
+            return;
+        }
         typename Field::Element bet;
         F.init(bet);
         F.assign(bet,beta);
-- 
2.43.0


From 1348e84d2697f5ba3e470941b2aeb147751c5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 04/20] fix: three operand ftrmm over generic fields ignored
 beta=0 and accumulated on the old C

---
 fflas-ffpack/fflas/fflas_ftrmm_src.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm_src.inl b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
index 736f7ba..387bee8 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
@@ -356,7 +356,7 @@ public:
     {
 
         if (__FFLAS__Na == 1){
-            if (!F.isZero(beta))
+            if (!F.isOne(beta))
                 fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
 #ifdef __FFLAS__NONUNIT
             //TODO: replace by faxpby when available
-- 
2.43.0


From d7422fc16193d6fb996ad86d4d3a02f23a121e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 05/20] fix: fsyr2k with K=0 scaled C by beta twice

---
 fflas-ffpack/fflas/fflas_fsyr2k.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyr2k.inl b/fflas-ffpack/fflas/fflas_fsyr2k.inl
index 618624d..b2dd5ac 100644
--- a/fflas-ffpack/fflas/fflas_fsyr2k.inl
+++ b/fflas-ffpack/fflas/fflas_fsyr2k.inl
@@ -42,7 +42,10 @@ namespace FFLAS {
             typename Field::Element_ptr C, const size_t ldc){
 
         if (!N) return C;
-        if (!K) fscalin(F, N,N, beta, C, ldc);
+        if (!K) {
+            fscalin(F, N,N, beta, C, ldc);
+            return C;
+        }
 
         typename Field::Element_ptr diagC(nullptr);
 
-- 
2.43.0


From 33f96262f6d94c2280ce3ef3b3924ea6e5a8df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 06/20] fix: block diagonal fsyrk read twoBlocks (of size K) at
 an index bounded by N

---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index dd5aab4..96b728e 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -723,7 +723,6 @@ namespace FFLAS {
 
         }else {
             size_t N1 = N>>1;
-            if (twoBlocks[N1-1]) N1++; // don't split a 2x2 block
             size_t N2 = N - N1;
             // Comments written for the case UpLo==FflasUpper, trans==FflasNoTrans
 
-- 
2.43.0


From 8e3f8a4a5276626bad854704dcca62b3ced983ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:23 +0000
Subject: [PATCH 07/20] fix: Strassen based fsyrk wrote before C when N or K is
 smaller than 2^(levels+1)

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index 3eb1f86..dc7b9e9 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -384,14 +384,14 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc,
            MMHelper<Field, MMHelperAlgo::Winograd, Mode> & H){
 
-        if (!H.recLevel){
+        const size_t q = 1 << (H.recLevel+1);
+        if (!H.recLevel || N < q || K < q){ // too small for a Strassen step
             MMHelper<Field, MMHelperAlgo::Classic, Mode>  H2 (H);
             fsyrk (F, UpLo, trans, N, K, alpha, A, lda, beta, C, ldc, H2);
             H.Outmin = H2.Outmin;
             H.Outmax = H2.Outmax;
             return C;
         }
-        size_t q = 1 << (H.recLevel+1);
         size_t Ns = (N/q)*q;
         size_t Ks = (K/q)*q;
         
-- 
2.43.0


From d8220d580c1bed7a30d66cc635f8c089c192835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:41 +0000
Subject: [PATCH 08/20] fix: block splitters by grain or fixed size left the
 end of the matrix uncovered

---
 fflas-ffpack/paladin/blockcuts.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index c67650b..fa49321 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -287,6 +287,10 @@ namespace FFLAS {
         numRowBlock = m/rowBlockSize;
         numColBlock = n/colBlockSize;
 
+        // spread the remainder over all the blocks: changeRBS < numRowBlock, changeCBS < numColBlock
+        if (numRowBlock) rowBlockSize = m/numRowBlock;
+        if (numColBlock) colBlockSize = n/numColBlock;
+
         changeRBS = m-rowBlockSize*numRowBlock;
         lastRBS = rowBlockSize;
         if (changeRBS) ++rowBlockSize;
-- 
2.43.0


From f1fde9dcaec4d74fdcd59463ff9106ac5f0655b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:54 +0000
Subject: [PATCH 09/20] fix: ColRankProfileSubmatrixIndices initialised N
 entries of an array of M row indices

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 97d5d35..8095d79 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -216,7 +216,7 @@ namespace FFPACK{
         for (size_t i=0; i<R; ++i)
             colindices [i] = Q [i];
 
-        for (size_t i=0; i<N; ++i)
+        for (size_t i=0; i<M; ++i)
             rowindices [i] = i;
 
         size_t tmp;
-- 
2.43.0


From b9e8ff6035ec3fb881ca420d8fba9bcb4ccc7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:54 +0000
Subject: [PATCH 10/20] fix: LUdivine with FflasTrans below the cutoff used
 LUdivine_small, which ignores trans

---
 fflas-ffpack/ffpack/ffpack_ludivine.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine.inl b/fflas-ffpack/ffpack/ffpack_ludivine.inl
index 4d3aea3..1de4c9f 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine.inl
@@ -432,7 +432,8 @@ namespace FFPACK {
             rowDim = M;
         }
 
-        if ((rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
+        // LUdivine_small only implements the CUP decomposition (trans == FflasNoTrans)
+        if ((trans == FFLAS::FflasNoTrans) && (rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
             return LUdivine_small (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
         }
         else { // recursively :
-- 
2.43.0


From 9edcb26662dc8426d088780eb5dc58c2f0b67371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:41 +0000
Subject: [PATCH 11/20] fix: Invert ignored the column permutation of the
 Gauss-Jordan elimination

---
 fflas-ffpack/ffpack/ffpack_invert.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_invert.inl b/fflas-ffpack/ffpack/ffpack_invert.inl
index 96058c0..98618f0 100644
--- a/fflas-ffpack/ffpack/ffpack_invert.inl
+++ b/fflas-ffpack/ffpack/ffpack_invert.inl
@@ -49,6 +49,8 @@ namespace FFPACK {
         size_t R =  ReducedRowEchelonForm (F, M, M, A, lda, P, Q, true, FfpackGaussJordanTile);
         nullity = (int)(M - R);
         applyP (F, FFLAS::FflasRight, FFLAS::FflasNoTrans, M, 0, (int)R, A, lda, P);
+        // The reduced echelon form is I up to the column permutation Q: A^-1 = Q^T T P
+        applyP (F, FFLAS::FflasLeft, FFLAS::FflasTrans, M, 0, (int)R, A, lda, Q);
         FFLAS::fflas_delete(P);
         FFLAS::fflas_delete(Q);
 
-- 
2.43.0


From 7bc9fced20cc2890aec573f04bd33eecd82a4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:41 +0000
Subject: [PATCH 12/20] fix: RandomNullSpaceVector permuted a vector of stride
 incX as a contiguous one

---
 fflas-ffpack/ffpack/ffpack.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 0e4cdcc..fc34892 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -248,7 +248,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, 1u, Q);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, incX, Q);
 
             FFLAS::fflas_delete(Q);
         }
@@ -289,7 +289,8 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasLower, FFLAS::FflasTrans, FFLAS::FflasUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasRight, FFLAS::FflasNoTrans, 1u, 0u, (int) M, X, 1u, P);
+            // (X is a row vector of stride incX: permute it as a column)
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) M, X, incX, P);
 
             FFLAS::fflas_delete(P);
         }
-- 
2.43.0


From dc2879c5b0664ff89119123e96fd1d0a0fb740d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:27 +0000
Subject: [PATCH 13/20] fix: LUdivine with FfpackSingular below the cutoff
 reported a singular matrix as nonsingular

---
 fflas-ffpack/ffpack/ffpack_ludivine.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine.inl b/fflas-ffpack/ffpack/ffpack_ludivine.inl
index 1de4c9f..365ef32 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine.inl
@@ -434,7 +434,8 @@ namespace FFPACK {
 
         // LUdivine_small only implements the CUP decomposition (trans == FflasNoTrans)
         if ((trans == FFLAS::FflasNoTrans) && (rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
-            return LUdivine_small (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
+            size_t R = LUdivine_small (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
+            return ((LuTag == FFPACK::FfpackSingular) && (R < MN)) ? 0 : R;
         }
         else { // recursively :
             if (MN == 1){
-- 
2.43.0


From f410318fc98c042eeb70202120521ebf81520db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:37 +0000
Subject: [PATCH 14/20] fix: p*EchelonForm C wrappers passed the transform flag
 as the number of threads

---
 fflas-ffpack/interfaces/libs/ffpack.C | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index b16de46..bb9855d 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -697,10 +697,10 @@ pReducedColumnEchelonForm_modular_float (const float p, const size_t M, const si
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -715,10 +715,10 @@ pReducedRowEchelonForm_modular_float (const float p, const size_t M, const size_
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -731,10 +731,10 @@ pColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -748,10 +748,10 @@ pRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -766,10 +766,10 @@ pReducedColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, cons
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -784,10 +784,10 @@ pReducedRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const s
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
-- 
2.43.0


From b9d31f585849b10713f97e57aa8d7266034ae6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:37 +0000
Subject: [PATCH 15/20] fix: ffpack C entry points taking enums were defined
 with C++ linkage, unlike their declarations

The definitions used FFLAS::FFLAS_* parameter types and so were overloads of the
extern "C" functions declared in ffpack_c.h, which stayed undefined.
---
 fflas-ffpack/interfaces/libs/ffpack.C   | 64 ++++++++++++-------------
 fflas-ffpack/interfaces/libs/ffpack_c.h |  8 ++--
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index bb9855d..d7db3f3 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -171,8 +171,8 @@ void cyclic_shift_col_modular_double(const double p, double * A, size_t m, size_
 
 void
 applyP_modular_double( const double p,
-                       const enum FFLAS::FFLAS_SIDE Side,
-                       const enum FFLAS::FFLAS_TRANSPOSE Trans,
+                       const enum FFLAS_C_SIDE Side,
+                       const enum FFLAS_C_TRANSPOSE Trans,
                        const size_t M, const size_t ibeg, const size_t iend,
                        double * A, const size_t lda, const size_t * P
                        , bool positive)
@@ -190,7 +190,7 @@ applyP_modular_double( const double p,
 
 void
 fgetrsin_modular_double (const double p,
-                         const enum FFLAS::FFLAS_SIDE Side,
+                         const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * A, const size_t lda,
                          const size_t *P, const size_t *Q,
@@ -209,8 +209,8 @@ fgetrsin_modular_double (const double p,
 
 
 double *
-fgetrsv_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+fgetrs_modular_double (const double p,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t NRHS, const size_t R,
                         double * A, const size_t lda,
                         const size_t *P, const size_t *Q,
@@ -232,7 +232,7 @@ fgetrsv_modular_double (const double p,
 
 size_t
 fgesvin_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N,
                         double * A, const size_t lda,
                         double * B, const size_t ldb,
@@ -252,7 +252,7 @@ fgesvin_modular_double (const double p,
 
 size_t
 fgesv_modular_double (const double p,
-                      const enum FFLAS::FFLAS_SIDE Side,
+                      const enum FFLAS_C_SIDE Side,
                       const size_t M, const size_t N, const size_t NRHS,
                       double * A, const size_t lda,
                       double * X, const size_t ldx,
@@ -273,7 +273,7 @@ fgesv_modular_double (const double p,
 
 
 void
-ftrtri_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtri_modular_double (const double p, const enum FFLAS_C_UPLO Uplo, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda
                        , bool positive)
 {
@@ -301,15 +301,15 @@ void trinv_left_modular_double( const double p, const size_t N, const double * L
 }
 
 void
-ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda, bool positive)
 {
     if (positive) {
         Modular<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     } else {
         ModularBalanced<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     }
 }
 
@@ -318,7 +318,7 @@ ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum
 /* PLUQ */
 
 size_t
-PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+PLUQ_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                      const size_t M, const size_t N,
                      double * A, const size_t lda,
                      size_t*P, size_t *Q
@@ -334,7 +334,7 @@ PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
 }
 
 size_t
-LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                          const size_t M, const size_t N,
                          double * A, const size_t lda,
                          size_t* P, size_t* Qt,
@@ -355,7 +355,7 @@ LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  con
 #if 0 /*  UTILE ?? */
 
 size_t
-LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_small_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -363,7 +363,7 @@ LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag
 
 
 size_t
-LUdivine_gauss_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+LUdivine_gauss_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -1014,7 +1014,7 @@ Solve_modular_double( const double p, const size_t M,
 
 
 void
-solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t R,
                         double * L, const size_t ldl,
                         const size_t * Q,
@@ -1033,7 +1033,7 @@ solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 
 
 void
-solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB2_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * L, const size_t ldl,
                          const size_t * Q,
@@ -1056,7 +1056,7 @@ solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 /*************/
 
 
-void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                            const size_t M, const size_t N,
                                            double * A, const size_t lda,
                                            double * X, const size_t incX
@@ -1073,7 +1073,7 @@ void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFL
 
 
 
-size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                       const size_t M, const size_t N,
                                       double * A, const size_t lda,
                                       double ** NS, size_t* ldn,
@@ -1223,8 +1223,8 @@ size_t ColRankProfileSubmatrix_modular_double (const double p, const size_t M, c
 
 
 void
-getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                              const enum FFLAS::FFLAS_DIAG Diag,
+getTriangular_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                              const enum FFLAS_C_DIAG Diag,
                               const size_t M, const size_t N, const size_t R,
                               const double * A, const size_t lda,
                               double * T, const size_t ldt,
@@ -1243,8 +1243,8 @@ getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
 
 
 void
-getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                const enum FFLAS::FFLAS_DIAG Diag,
+getTriangularin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                const enum FFLAS_C_DIAG Diag,
                                 const size_t M, const size_t N, const size_t R,
                                 double * A, const size_t lda
                                 , bool positive)
@@ -1261,8 +1261,8 @@ getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Upl
 
 
 void
-getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                               const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                               const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N, const size_t R, const size_t* P,
                                const double * A, const size_t lda,
                                double * T, const size_t ldt,
@@ -1282,8 +1282,8 @@ getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo
 
 
 void
-getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                 const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                 const enum FFLAS_C_DIAG Diag,
                                  const size_t M, const size_t N, const size_t R, const size_t* P,
                                  double * A, const size_t lda,
                                  const enum FFPACK_C_LU_TAG LuTag
@@ -1300,8 +1300,8 @@ getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Up
 
 
 void
-getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                    const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                    const enum FFLAS_C_DIAG Diag,
                                     const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                     const double * A, const size_t lda,
                                     double * T, const size_t ldt,
@@ -1321,7 +1321,7 @@ getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO
 
 
 void
-getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                       const size_t M, const size_t N, const size_t R, const size_t* P,
                                       const double * A, const size_t lda,
                                       double * T, const size_t ldt,
@@ -1341,7 +1341,7 @@ getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UP
 
 
 void
-getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                         const size_t M, const size_t N, const size_t R, const size_t* P,
                                         double * A, const size_t lda,
                                         const enum FFPACK_C_LU_TAG LuTag
@@ -1359,7 +1359,7 @@ getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_
 
 
 void
-getReducedEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                            const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                            const double * A, const size_t lda,
                                            double * T, const size_t ldt,
diff --git a/fflas-ffpack/interfaces/libs/ffpack_c.h b/fflas-ffpack/interfaces/libs/ffpack_c.h
index 191e98a..140a161 100644
--- a/fflas-ffpack/interfaces/libs/ffpack_c.h
+++ b/fflas-ffpack/interfaces/libs/ffpack_c.h
@@ -217,7 +217,8 @@ extern "C" {
                           double * A, const size_t lda,
                           double * X, const size_t ldx,
                           const double * B, const size_t ldb,
-                          int * info);
+                          int * info
+                          , bool positive );
 
     /* ftrtr */
 
@@ -234,7 +235,7 @@ extern "C" {
 
 
     void
-    ftrtrm_modular_double (const double p, const enum FFLAS_C_DIAG diag, const size_t N,
+    ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG diag, const size_t N,
                            double * A, const size_t lda
                            , bool positive );
 
@@ -522,7 +523,8 @@ extern "C" {
                             const size_t M, const size_t N, const size_t R,
                             double * L, const size_t ldl,
                             const size_t * Q,
-                            double * B, const size_t ldb );
+                            double * B, const size_t ldb
+                            , bool positive );
 
 
     void
-- 
2.43.0


From ee4c2474a5e8c0c6fa7679e8c3ef3f95a151f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:37 +0000
Subject: [PATCH 16/20] fix: delayed fgemm and fgemv sized later blocks for the
 first block's beta only

kmax is computed for the beta of the first block, but the following blocks
accumulate with beta=1 and can exceed the exact range of the element type
(ModularBalanced<float> p=2273, k=14, beta=0).
---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl | 7 +++++++
 fflas-ffpack/fflas/fflas_fgemv.inl                 | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
index db1d792..0f5f7fe 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
@@ -99,6 +99,13 @@ namespace FFLAS {
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < k){
+            // the blocks after the first one are accumulated (beta=1) to a reduced C
+            HelperType Hacc(H);
+            Hacc.initC();
+            kmax = std::min (kmax, Hacc.MaxDelayedDim (H.delayedField.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index c394c11..5a372bc 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -277,6 +277,13 @@ namespace FFLAS{
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < Xdim){
+            // the blocks after the first one are accumulated (beta=1) to a reduced Y
+            HelperType Hacc(H);
+            Hacc.initC();
+            kmax = std::min (kmax, Hacc.MaxDelayedDim (H.delayedField.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
-- 
2.43.0


From 6d5f120970d394c2325b84959abf26cd7cf2a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:10 +0000
Subject: [PATCH 17/20] fix: DynamicPeeling2 announced A's bounds for B and B's
 for A on the odd rows

With a LazyTag helper whose A and B bounds differ the wrong operand is reduced
and the last rows overflow (Modular<double> p=33554393, A in [0,2(p-1)], m=5, k=64, 1 level).
---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl | 2 --
 1 file changed, 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
index 37a794a..b0acfa5 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_winograd.inl
@@ -229,8 +229,6 @@ namespace FFLAS { namespace Protected {
         Hacc.Cmin = H.Outmin; Hacc.Cmax = H.Outmax;
         Hacc.recLevel=-1;HModd.recLevel=-1;HNodd.recLevel=-1;
         HModd.Cmin = Cmin; HModd.Cmax = Cmax;
-        HModd.Amax = H.Bmax; HModd.Amin = H.Bmin;
-        HModd.Bmax = H.Amax; HModd.Bmin = H.Amin;
         HNodd.Cmin = Cmin; HNodd.Cmax = Cmax;
 
         switch (mkn) {
-- 
2.43.0


From da3a1ac931fe6fcfc2cd53d99ebde60a017a2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:10 +0000
Subject: [PATCH 18/20] fix: WinogradAcc_3_21 added a reduced product to beta.C
 without room for it

When beta.C alone nearly fills the exact range, reducing the product is not enough;
C has to be reduced too (Modular<double> p=33554393, beta=1, C=2^53-1, 1 level).
---
 fflas-ffpack/fflas/fflas_fgemm.inl              | 17 +++++++++++++++++
 .../fflas/fflas_fgemm/schedule_winograd_acc.inl |  6 ++++++
 2 files changed, 23 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm.inl b/fflas-ffpack/fflas/fflas_fgemm.inl
index 49cb7b4..4a7ed8e 100644
--- a/fflas-ffpack/fflas/fflas_fgemm.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm.inl
@@ -180,6 +180,23 @@ namespace FFLAS{ namespace Protected{
         }
     }
 
+    // Testing if beta.C leaves no room for adding a reduced product
+    template<class Field, class Element, class AlgoT, class ParSeqTrait>
+    inline bool NeedPreScalReduction (Element beta,
+                                      MMHelper<Field, AlgoT, ModeCategories::LazyTag, ParSeqTrait >& WH)
+    {
+        if (beta < 0) beta = -beta;
+        return std::max (static_cast<Element>(-WH.Cmin), WH.Cmax) >
+            (WH.MaxStorableValue - std::max (static_cast<Element>(-WH.FieldMin), WH.FieldMax)) / beta;
+    }
+
+    template<class Field, class Element, class AlgoT, class ModeT, class ParSeqTrait>
+    inline bool NeedPreScalReduction (Element beta,
+                                      MMHelper<Field, AlgoT, ModeT, ParSeqTrait >& WH)
+    {
+        return false;
+    }
+
     template<class Field, class Element, class AlgoT, class ModeT, class ParSeqTrait>
     inline bool NeedDoublePreAddReduction (Element& Outmin, Element& Outmax,
                                            Element& Op1min, Element& Op1max,
diff --git a/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd_acc.inl b/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd_acc.inl
index 4d0f7c2..af72054 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd_acc.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/schedule_winograd_acc.inl
@@ -272,6 +272,12 @@ namespace FFLAS { namespace BLAS3 {
                  0, 0);
         fgemm (F, ta, tb, mr, nr, kr, alpha, X2, ca, X3, ldX3, F.zero, X1, nr, H5);
 
+        // This test will be optimized out
+        if (Protected::NeedPreScalReduction (betadf, WH)){
+            freduce (F, 2*mr, 2*nr, C, ldc);
+            WH.initC();
+        }
+
         DFElt C22Min, C22Max;
         DFElt C12Min, C12Max;
         // This test will be optimized out
-- 
2.43.0


From 6dab1a0e5429f2da50621dc6983f35ad609145ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:10 +0000
Subject: [PATCH 19/20] fix: MaxDelayedDim overflowed int64_t when beta.C or
 A.B do not fit

The wrapped product gave a positive kmax and the inputs were not reduced
(ModularBalanced<int64_t> Winograd with a general alpha, C within the announced bounds).
---
 fflas-ffpack/fflas/fflas_helpers.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_helpers.inl b/fflas-ffpack/fflas/fflas_helpers.inl
index 85478d4..9db7b70 100644
--- a/fflas-ffpack/fflas/fflas_helpers.inl
+++ b/fflas-ffpack/fflas/fflas_helpers.inl
@@ -181,8 +181,14 @@ namespace FFLAS {
             if (beta < 0) absbeta = -beta;
             // This cast is needed when Cmin base type is int8/16_t,
             // getting -Cmin returns a int, not the same base type.
-            DFElt diff = MaxStorableValue - absbeta * std::max(static_cast<const DFElt&>(-Cmin), Cmax);
-            DFElt AB = std::max(static_cast<const DFElt&>(-Amin), Amax) * std::max(static_cast<const DFElt&>(-Bmin), Bmax);
+            DFElt absA = std::max(static_cast<const DFElt&>(-Amin), Amax);
+            DFElt absB = std::max(static_cast<const DFElt&>(-Bmin), Bmax);
+            DFElt absC = std::max(static_cast<const DFElt&>(-Cmin), Cmax);
+            // the products below must be representable themselves
+            if ((absbeta > DFElt(0u) && absC > MaxStorableValue/absbeta) ||
+                (absB > DFElt(0u) && absA > MaxStorableValue/absB)) return 0;
+            DFElt diff = MaxStorableValue - absbeta * absC;
+            DFElt AB = absA * absB;
 
             if ((diff < DFElt(0u))||(AB<DFElt(0u))) return 0;
 
-- 
2.43.0


From 4774cabb98185f63787b9116d99aef212f922dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:45 +0000
Subject: [PATCH 20/20] fix: ftrsv compared pointers to stop and ran off with a
 null vector of size 0

---
 fflas-ffpack/fflas/fflas_ftrsv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrsv.inl b/fflas-ffpack/fflas/fflas_ftrsv.inl
index 10c5a66..cb656bd 100644
--- a/fflas-ffpack/fflas/fflas_ftrsv.inl
+++ b/fflas-ffpack/fflas/fflas_ftrsv.inl
@@ -77,7 +77,7 @@ namespace FFLAS {
             else{
                 Ai = A+(lda+1)*(N-1);
                 Xi = X+incX*(int)(N-1);
-                for(size_t i=0; Xi>=X; Ai-=lda+1,Xi-=incX, ++i ){
+                for(size_t i=0; i<N; Ai-=lda+1,Xi-=incX, ++i ){
                     if (i)
                         F.subin (*Xi, fdot (F, i, Ai+1, 1, Xi+incX, incX));
                     if ( Diag==FflasNonUnit )
-- 
2.43.0

