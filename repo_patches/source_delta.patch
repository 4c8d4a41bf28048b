From cb861dce6e03943ebf7755c462bd90d77b586da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 01/99] fix: fsquare over integer-represented fields went
 through a single dgemm and rounded for large moduli

---
 fflas-ffpack/fflas/fflas_fgemm.inl | 53 +++++++-----------------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm.inl b/fflas-ffpack/fflas/fflas_fgemm.inl
index 49cb7b4..e833c98 100644
--- a/fflas-ffpack/fflas/fflas_fgemm.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm.inl
@@ -445,47 +445,6 @@ namespace FFLAS {
 
 // fsquare
 namespace FFLAS {
-    template < class Field >
-    inline typename Field::Element_ptr
-    fsquare (const Field& F,
-             const FFLAS_TRANSPOSE ta,
-             const size_t n, const typename Field::Element alpha,
-             typename Field::ConstElement_ptr A, const size_t lda,
-             const typename Field::Element beta,
-             typename Field::Element_ptr C, const size_t ldc)
-    {
-
-        double alphad, betad;
-        F.convert (alphad, alpha);
-        if (F.isMOne (beta))
-            betad = -1.0;
-        else
-            F.convert (betad, beta);
-
-        //! @bug why double ?
-        // Double  matrices initialisation
-        Givaro::DoubleDomain::Element_ptr Ad = fflas_new (Givaro::DoubleDomain(),n,n);
-        Givaro::DoubleDomain::Element_ptr Cd = fflas_new (Givaro::DoubleDomain(),n,n);
-        // Conversion finite Field = >  double
-        fconvert (F, n, n, Ad, n, A, lda);
-        if (!F.isZero(beta)) fconvert(F, n, n, Cd, n, C, ldc);
-
-        // Call to the blas Multiplication
-        FFLASFFPACK_check(n);
-#if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
-        openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
-#endif
-        cblas_dgemm (CblasRowMajor, (CBLAS_TRANSPOSE)ta,
-                     (CBLAS_TRANSPOSE)ta, (int)n, (int)n, (int)n,
-                     (Givaro::DoubleDomain::Element) alphad, Ad, (int)n, Ad, (int)n,
-                     (Givaro::DoubleDomain::Element) betad, Cd, (int)n);
-        // Conversion double = >  Finite Field
-        fflas_delete (Ad);
-        finit (F,n,n, Cd, n, C, ldc);
-        fflas_delete (Cd);
-        return C;
-    }
-
     namespace Protected {
 
         // F is Modular(Balanced)<float/double>
@@ -512,6 +471,18 @@ namespace FFLAS {
 
     } // Protected
 
+    template < class Field >
+    inline typename Field::Element_ptr
+    fsquare (const Field& F,
+             const FFLAS_TRANSPOSE ta,
+             const size_t n, const typename Field::Element alpha,
+             typename Field::ConstElement_ptr A, const size_t lda,
+             const typename Field::Element beta,
+             typename Field::Element_ptr C, const size_t ldc)
+    {
+        return Protected::fsquareCommon(F,ta,n,alpha,A,lda,beta,C,ldc);
+    }
+
     template <>
     inline double* fsquare (const  Givaro::ModularBalanced<double> & F,
                             const FFLAS_TRANSPOSE ta,
-- 
2.43.0


From b0ed53fe419777753e416ddb30cfb149eba99813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:10 +0000
Subject: [PATCH 02/99] fix: scalar floating point reduction rounded near the
 largest moduli unless the compiler fused A-Q*B

---
 fflas-ffpack/fflas/fflas_freduce.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_freduce.inl b/fflas-ffpack/fflas/fflas_freduce.inl
index 09460a5..0bb52a6 100644
--- a/fflas-ffpack/fflas/fflas_freduce.inl
+++ b/fflas-ffpack/fflas/fflas_freduce.inl
@@ -30,6 +30,7 @@
 #ifndef __FFLASFFPACK_fflas_freduce_INL
 #define __FFLASFFPACK_fflas_freduce_INL
 
+#include <cmath>
 #include <givaro/udl.h>
 
 #include "fflas-ffpack/fflas/fflas_fassign.h"
@@ -62,7 +63,7 @@ namespace FFLAS { namespace vectorised { /*  for casts (?) */
     {
         float Q = A * invB;
         Q = floorf(Q);
-        A = A - Q*B;
+        A = std::fma (-Q, B, A); // Q*B may exceed the exactly representable range
         A = A < min ? A + B : A;
         A = A > max ? A - B : A;
         return A;
@@ -73,7 +74,7 @@ namespace FFLAS { namespace vectorised { /*  for casts (?) */
         //std::cerr<<"fmod"<<std::endl;
         double Q = A * invB;
         Q = floor(Q);
-        A = A - Q*B;
+        A = std::fma (-Q, B, A); // Q*B may exceed the exactly representable range
         A = A < min ? A + B : A;
         A = A > max ? A - B : A;
         return A;
-- 
2.43.0


From 4e0c387c6fce5fad748efa3d1e0f00df9026aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:13 +0000
Subject: [PATCH 03/99] fix: fscal over DoubleDomain/FloatDomain read its input
 with the stride of its output

---
 fflas-ffpack/fflas/fflas_fscal.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fscal.inl b/fflas-ffpack/fflas/fflas_fscal.inl
index 133eab8..5565d5e 100644
--- a/fflas-ffpack/fflas/fflas_fscal.inl
+++ b/fflas-ffpack/fflas/fflas_fscal.inl
@@ -368,7 +368,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_dcopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_dcopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_dscal( (int)N, a, y, (int)incy);
     }
 
@@ -382,7 +382,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_scopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_scopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_sscal( (int)N, a, y, (int)incy);
     }
 
-- 
2.43.0


From eb581ca11b78a1ff5d3c16c0f69a3823b41df081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:13 +0000
Subject: [PATCH 04/99] fix: fmove copied A over B and then cleared it instead
 of moving B into A

---
 fflas-ffpack/fflas/fflas_level2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 7910050..0ffb6f2 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -414,7 +414,7 @@ namespace FFLAS {
            typename Field::Element_ptr A, const size_t lda,
            typename Field::Element_ptr B, const size_t ldb )
     {
-        fassign(F,m,n,A,lda,B,ldb);
+        fassign(F,m,n,B,ldb,A,lda);
         fzero(F,m,n,B,ldb);
     }
 
-- 
2.43.0


From ec6bf8e2ad5e43749b05250630279f1acd112efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:24 +0000
Subject: [PATCH 05/99] fix: strided fsub over generic fields added instead of
 subtracting

---
 fflas-ffpack/fflas/fflas_fadd.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fadd.inl b/fflas-ffpack/fflas/fflas_fadd.inl
index 917cb02..719d4c7 100644
--- a/fflas-ffpack/fflas/fflas_fadd.inl
+++ b/fflas-ffpack/fflas/fflas_fadd.inl
@@ -367,7 +367,7 @@ namespace FFLAS { namespace details {
                 if (ADD)
                     F.add (*Ci, *Ai, *Bi);
                 else
-                    F.add (*Ci, *Ai, *Bi);
+                    F.sub (*Ci, *Ai, *Bi);
         }
     }
 
-- 
2.43.0


From 0ec6654367c152cf14a1f00fe45f1e2b15293de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:33 +0000
Subject: [PATCH 06/99] fix: triangular fzero with a unit diagonal ran out of
 bounds on a 0x0 matrix

---
 fflas-ffpack/fflas/fflas_level2.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 0ffb6f2..c78419f 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -94,6 +94,7 @@ namespace FFLAS {
     fzero (const Field& F, const FFLAS_UPLO shape, const FFLAS_DIAG diag,
            const size_t n, typename Field::Element_ptr A, const size_t lda)
     {
+        if (!n) return;
         ptrdiff_t inc_row;
         typename Field::Element_ptr Ai;
         size_t size = n;
-- 
2.43.0


From d5670b105266bceca98cfe1d2e8946b04142cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:35 +0000
Subject: [PATCH 07/99] fix: fsubin over RecInt based fields relied on an
 aliased subtraction Givaro does not support

---
 fflas-ffpack/fflas/fflas_fadd.inl | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fadd.inl b/fflas-ffpack/fflas/fflas_fadd.inl
index 719d4c7..f27b6df 100644
--- a/fflas-ffpack/fflas/fflas_fadd.inl
+++ b/fflas-ffpack/fflas/fflas_fadd.inl
@@ -287,6 +287,16 @@ namespace FFLAS { namespace details {
 
     /**** Specialised ****/
 
+    // c <- a - b where c may be a: Givaro's sub over RecInt elements does not support this aliasing
+    template <class Field, class EltC, class EltA, class EltB>
+    inline void subAlias (const Field & F, EltC && c, const EltA & a, const EltB & b) { F.sub (c, a, b); }
+    template <class Field, size_t K>
+    inline void subAlias (const Field & F, RecInt::ruint<K> & c, const RecInt::ruint<K> & a, const RecInt::ruint<K> & b)
+    {
+        RecInt::ruint<K> t;
+        F.assign (c, F.sub (t, a, b));
+    }
+
     template <class Field, bool ADD>
     typename std::enable_if<FFLAS::support_simd_add<typename Field::Element>::value, void>::type
     fadd (const Field & F,  const size_t N,
@@ -328,7 +338,7 @@ namespace FFLAS { namespace details {
                 if (ADD)
                     F.add (C[i], A[i], B[i]);
                 else
-                    F.sub (C[i], A[i], B[i]);
+                    subAlias (F, C[i], A[i], B[i]);
         }
         else {
             typename Field::ConstElement_ptr Ai=A, Bi=B;
@@ -337,7 +347,7 @@ namespace FFLAS { namespace details {
                 if (ADD)
                     F.add (*Ci, *Ai, *Bi);
                 else
-                    F.sub (*Ci, *Ai, *Bi);
+                    subAlias (F, *Ci, *Ai, *Bi);
         }
     }
 
@@ -357,7 +367,7 @@ namespace FFLAS { namespace details {
                 if (ADD)
                     F.add (C[i], A[i], B[i]);
                 else
-                    F.sub (C[i], A[i], B[i]);
+                    subAlias (F, C[i], A[i], B[i]);
             }
         }
         else {
@@ -367,7 +377,7 @@ namespace FFLAS { namespace details {
                 if (ADD)
                     F.add (*Ci, *Ai, *Bi);
                 else
-                    F.sub (*Ci, *Ai, *Bi);
+                    subAlias (F, *Ci, *Ai, *Bi);
         }
     }
 
-- 
2.43.0


From b9a3aeac19e1820eba59686477b9901db98702b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:18 +0000
Subject: [PATCH 08/99] fix: fgemv of the transpose of a matrix with no rows
 did not scale Y by beta

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 2a03984..d67b655 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -127,8 +127,8 @@ namespace FFLAS {
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DelayedTag> & H)
     {
 
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
@@ -344,8 +344,8 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY)
     {
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
-- 
2.43.0


From b71e780bd619de9b83f43ee1942d0ea05d81d36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:18 +0000
Subject: [PATCH 09/99] fix: fgemv over Modular<int32_t> modulo 2 did nothing
 but report an invalid mode

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index d67b655..35b0f02 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -98,7 +98,7 @@ namespace FFLAS {
     {
         if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER && F.cardinality() > 2)
             return Protected::fgemv_convert<float,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
-        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality() && F.cardinality() > 2)
+        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality())
             return Protected::fgemv_convert<double,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
         else {
             FFPACK::failure()(__func__,__LINE__,"Invalid ConvertTo Mode for this field");
-- 
2.43.0


From aaf2468ead03217494b9bb5db9a3b308dc78401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:06 +0000
Subject: [PATCH 10/99] fix: multiprecision fgemm did not scale C by beta when
 the product was zero

---
 .../fflas/fflas_fgemm/fgemm_classical_mp.inl        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 14a2ac3..81c3842 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -327,12 +327,11 @@ namespace FFLAS {
         Timer chrono;
         chrono.start();
 #endif
-        if (alpha == 0){
+        if (alpha == 0 || k == 0){
             fscalin(F,m,n,beta,C,ldc);
             return C;
         }
 
-        if (k==0) return C;
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
@@ -352,8 +351,11 @@ namespace FFLAS {
 
         mC = 2*uint64_t(k)*H.normA*H.normB*abs(alpha); // need to use 2x bound to reach both positive and negative
 
-        // A or B is zero, no need to modify C
-        if (mC == 0) return C;
+        // A or B is zero: the result is beta.C
+        if (mC == 0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
 
         // construct an RNS structure and its associated Domain
         FFPACK::rns_double RNS(mC, prime_bitsize);
@@ -595,12 +597,11 @@ namespace FFLAS {
         Timer chrono;
         chrono.start();
 #endif
-        if (alpha == 0){
+        if (alpha == 0 || k == 0){
             fscalin(F,m,n,beta,C,ldc);
             return C;
         }
 
-        if (k==0) return C;
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
-- 
2.43.0


From d4f51450b0043c3755c37ff06fc13f3643349a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:28 +0000
Subject: [PATCH 11/99] fix: out-of-place ftrmm over generic fields added to C
 when beta is zero

---
 fflas-ffpack/fflas/fflas_ftrmm_src.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm_src.inl b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
index 736f7ba..f13cb7e 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
@@ -356,7 +356,9 @@ public:
     {
 
         if (__FFLAS__Na == 1){
-            if (!F.isZero(beta))
+            if (F.isZero(beta))
+                fzero (F, __FFLAS__Bdim, C, __FFLAS__Cnorminc);
+            else
                 fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
 #ifdef __FFLAS__NONUNIT
             //TODO: replace by faxpby when available
-- 
2.43.0


From 954936e28da8bed0ad5029d23d43aa4442642dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:28 +0000
Subject: [PATCH 12/99] fix: out-of-place ftrmm divided beta by a zero alpha

---
 fflas-ffpack/fflas/fflas_ftrmm.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm.inl b/fflas-ffpack/fflas/fflas_ftrmm.inl
index 8bc2161..8cc6bce 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm.inl
@@ -119,6 +119,13 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc)
     {
         if (!M || !N ) return;
+        if (F.isZero(alpha)){
+            if (F.isZero(beta))
+                fzero (F, M, N, C, ldc);
+            else
+                fscalin (F, M, N, beta, C, ldc);
+            return;
+        }
         typename Field::Element bet;
         F.init(bet);
         F.assign(bet,beta);
-- 
2.43.0


From 7660e28c23d1a4a776a2cd9b13c20145bba1e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:28 +0000
Subject: [PATCH 13/99] fix: fsyr2k with k=0 scaled C by beta twice

---
 fflas-ffpack/fflas/fflas_fsyr2k.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyr2k.inl b/fflas-ffpack/fflas/fflas_fsyr2k.inl
index 618624d..34f3858 100644
--- a/fflas-ffpack/fflas/fflas_fsyr2k.inl
+++ b/fflas-ffpack/fflas/fflas_fsyr2k.inl
@@ -42,7 +42,6 @@ namespace FFLAS {
             typename Field::Element_ptr C, const size_t ldc){
 
         if (!N) return C;
-        if (!K) fscalin(F, N,N, beta, C, ldc);
 
         typename Field::Element_ptr diagC(nullptr);
 
-- 
2.43.0


From 34e33ea1ed35a0957ecf3d23bd3bc9df70a2a902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:40 +0000
Subject: [PATCH 14/99] fix: ftrsm let Winograd's algorithm overflow the exact
 range of its delayed updates

---
 fflas-ffpack/fflas/fflas_ftrsm_src.inl | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrsm_src.inl b/fflas-ffpack/fflas/fflas_ftrsm_src.inl
index 8223750..99225d6 100644
--- a/fflas-ffpack/fflas/fflas_ftrsm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrsm_src.inl
@@ -206,7 +206,7 @@ public:
 #endif //__FFLAS__TRSM_READONLY
                   A, const size_t lda,
                   typename Field::Element_ptr B, const size_t ldb,
-                  const size_t nblas, size_t nbblocsblas,
+                  const size_t nblas, size_t nbblocsblas, const int recLevel,
                   TRSMHelper<StructureHelper::Recursive, ParSeqTrait> & H)
 
     {
@@ -317,24 +317,24 @@ public:
             size_t nsplit = nbblocsup * nblas;
 
             this->delayed (F, __FFLAS__Mb, __FFLAS__Nb,
-                           __FFLAS__A1, lda, __FFLAS__B1, ldb, nblas, nbblocsup, H);
-
+                           __FFLAS__A1, lda, __FFLAS__B1, ldb, nblas, nbblocsup, recLevel, H);
 
+            MMHelper<__FFLAS__DOMAIN, MMHelperAlgo::Auto, typename ModeTraits<__FFLAS__DOMAIN>::value, ParSeqTrait> HM (D, recLevel, H.parseq);
 
 #ifdef __FFLAS__RIGHT
             fgemm (D, FflasNoTrans, Mjoin (Fflas, __FFLAS__TRANS),
                    __FFLAS__Mb2, __FFLAS__Nb2, nsplit, D.mOne,
                    __FFLAS__B1, ldb, __FFLAS__A2, lda,
-                   F.one, __FFLAS__B2, ldb, H.parseq);
+                   F.one, __FFLAS__B2, ldb, HM);
 #else
             fgemm (D, Mjoin (Fflas, __FFLAS__TRANS), FflasNoTrans,
                    __FFLAS__Mb2, __FFLAS__Nb2, nsplit, D.mOne,
                    __FFLAS__A2, lda, __FFLAS__B1, ldb,
-                   F.one, __FFLAS__B2, ldb, H.parseq);
+                   F.one, __FFLAS__B2, ldb, HM);
 #endif //__FFLAS__RIGHT
 
             this->delayed (F, __FFLAS__Mb2, __FFLAS__Nb2,
-                           __FFLAS__A3, lda, __FFLAS__B2, ldb, nblas, nbblocsblas - nbblocsup, H);
+                           __FFLAS__A3, lda, __FFLAS__B2, ldb, nblas, nbblocsblas - nbblocsup, recLevel, H);
         }
     }
     template <class Field, class ParSeqTrait>
@@ -363,9 +363,17 @@ public:
         size_t nsplit = ndel;
         size_t nbblocsplit = (__FFLAS__Na-1) / nsplit;
         size_t nrestsplit = ((__FFLAS__Na-1) % nsplit) +1;
+        int recLevel = -1;
+#ifndef __FFLAS_MULTIPRECISION
+        // ndel only bounds the classical algorithm: each level of Winograd's algorithm
+        // multiplies its intermediate values by at most 9/2
+        double growth = (double) std::min (nsplit, (size_t)__FFLAS__Na);
+        for (int w = WinogradSteps (D, std::min (M, N)); w > 0; --w) growth *= 6.;
+        if (growth > (double) ndel) recLevel = 0;
+#endif //__FFLAS_MULTIPRECISION
         for ( size_t  i = 0; i < nbblocsplit; ++i) {
             this->delayed (F, __FFLAS__Mb, __FFLAS__Nb,
-                           __FFLAS__Atriang, lda, __FFLAS__Brec, ldb, nblas, nsplit / nblas, H);
+                           __FFLAS__Atriang, lda, __FFLAS__Brec, ldb, nblas, nsplit / nblas, recLevel, H);
 
 #ifdef __FFLAS__RIGHT
             fgemm (F, FflasNoTrans, Mjoin (Fflas, __FFLAS__TRANS),
@@ -381,7 +389,7 @@ public:
         }
         if (nrestsplit)
             this->delayed (F, __FFLAS__Mbrest, __FFLAS__Nbrest,
-                           __FFLAS__Arest, lda, __FFLAS__Brest, ldb, nblas, nrestsplit / nblas, H);
+                           __FFLAS__Arest, lda, __FFLAS__Brest, ldb, nblas, nrestsplit / nblas, recLevel, H);
 
 #if defined(__FFLAS_MULTIPRECISION) && defined(BENCH_PERF_FTRSM_MP)
         chrono.stop();
-- 
2.43.0


From e61a6edeec8d3b41e0a57f54529626badf70468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 15/99] fix: block diagonal fsyrk indexed the K block flags
 with a row index of A, out of bounds when N>2K

---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index dd5aab4..96b728e 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -723,7 +723,6 @@ namespace FFLAS {
 
         }else {
             size_t N1 = N>>1;
-            if (twoBlocks[N1-1]) N1++; // don't split a 2x2 block
             size_t N2 = N - N1;
             // Comments written for the case UpLo==FflasUpper, trans==FflasNoTrans
 
-- 
2.43.0


From 21488a7387c5f204d6fa0444c8dbfb41b17577a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:26 +0000
Subject: [PATCH 16/99] fix: Strassen fsyrk ignored the bounds of its remainder
 update and ran out of bounds on dimensions smaller than its block size

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index 3eb1f86..2846786 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -384,14 +384,14 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc,
            MMHelper<Field, MMHelperAlgo::Winograd, Mode> & H){
 
-        if (!H.recLevel){
+        size_t q = 1 << (H.recLevel+1);
+        if (!H.recLevel || N < q || K < q){
             MMHelper<Field, MMHelperAlgo::Classic, Mode>  H2 (H);
             fsyrk (F, UpLo, trans, N, K, alpha, A, lda, beta, C, ldc, H2);
             H.Outmin = H2.Outmin;
             H.Outmax = H2.Outmax;
             return C;
         }
-        size_t q = 1 << (H.recLevel+1);
         size_t Ns = (N/q)*q;
         size_t Ks = (K/q)*q;
         
@@ -421,6 +421,9 @@ namespace FFLAS {
         H2.Cmin = H.Outmin;
         H2.Cmax = H.Outmax;
         fsyrk (F, UpLo, trans, Ns, K-Ks, alpha, A12, lda, F.one, C, ldc, H2);
+            // the other blocks of C are reduced
+        H.Outmin = std::min (H2.Outmin, H.FieldMin);
+        H.Outmax = std::max (H2.Outmax, H.FieldMax);
 
             // C22 = [A21 A22] x [A21 A22]^T
         fsyrk (F, UpLo, trans, N-Ns, K, alpha, A21, lda, beta, C+Ns*(ldc+1), ldc);
-- 
2.43.0


From 70f549f3178e9dff25e7920122eb90b82f7d31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:09 +0000
Subject: [PATCH 17/99] fix: max3 returned max(m,min(n,k)), so Strassen fsyrk
 lost track of the bounds of its result

---
 fflas-ffpack/fflas/fflas_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_enum.h b/fflas-ffpack/fflas/fflas_enum.h
index 8d82a3a..f75a690 100644
--- a/fflas-ffpack/fflas/fflas_enum.h
+++ b/fflas-ffpack/fflas/fflas_enum.h
@@ -86,7 +86,7 @@ namespace FFLAS {
 
     template <class T> const T &min3(const T &m, const T &n, const T &k) { return std::min(m, std::min(n, k)); }
 
-    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::min(n, k)); }
+    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::max(n, k)); }
 
     template <class T> const T &min4(const T &m, const T &n, const T &k, const T &l) {
         return std::min(std::min(m, n), std::min(k, l));
-- 
2.43.0


From 9eb243fe8c7cd6e8d593aea21700d17c7e4365f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:34 +0000
Subject: [PATCH 18/99] fix: LUdivine base case ignored the transposition,
 wrong factors and out of bounds writes with a cutoff above 1

---
 fflas-ffpack/ffpack/ffpack_ludivine.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine.inl b/fflas-ffpack/ffpack/ffpack_ludivine.inl
index 4d3aea3..28ad373 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine.inl
@@ -81,6 +81,9 @@ namespace FFPACK {
                     typename Field::Element_ptr A, const size_t lda, size_t*P,
                     size_t *Q, const FFPACK::FFPACK_LU_TAG LuTag)
     {
+        // the quadratic base case only handles the non transposed case
+        if (trans == FFLAS::FflasTrans)
+            return LUdivine (F, Diag, trans, M, N, A, lda, P, Q, LuTag, 1);
         return callLUdivine_small <typename Field::Element> ()
         (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
     }
-- 
2.43.0


From 324b5354ed33665182f61d6919108d824f3e4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:43 +0000
Subject: [PATCH 19/99] fix: LUdivine over Modular<Integer> crashed with a
 cutoff above 1, its RNS core has no quadratic base case

---
 fflas-ffpack/ffpack/ffpack_ludivine_mp.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine_mp.inl b/fflas-ffpack/ffpack/ffpack_ludivine_mp.inl
index 9e90d8b..d884323 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine_mp.inl
@@ -93,8 +93,8 @@ namespace FFPACK {
         chrono.clear();chrono.start();
 #endif
 
-        // call lqup in rns
-        size_t R=FFPACK::LUdivine(Zp, Diag, trans, M, N, Ap, N, P, Q, LuTag, cutoff);
+        // call lqup in rns (always fully recursive: the quadratic base case has no RNS support)
+        size_t R=FFPACK::LUdivine(Zp, Diag, trans, M, N, Ap, N, P, Q, LuTag, 1);
 
         //std::cout<<"LUDivine RNS done"<<std::endl;
 #ifdef BENCH_PERF_LQUP_MP
-- 
2.43.0


From 65b3d272c133b47486bf6a2cd16d3bac3c7afe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:40 +0000
Subject: [PATCH 20/99] fix: fsubin over signed RecInt based fields also relied
 on an aliased subtraction

---
 fflas-ffpack/fflas/fflas_fadd.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fadd.inl b/fflas-ffpack/fflas/fflas_fadd.inl
index f27b6df..b4e6a86 100644
--- a/fflas-ffpack/fflas/fflas_fadd.inl
+++ b/fflas-ffpack/fflas/fflas_fadd.inl
@@ -296,6 +296,12 @@ namespace FFLAS { namespace details {
         RecInt::ruint<K> t;
         F.assign (c, F.sub (t, a, b));
     }
+    template <class Field, size_t K>
+    inline void subAlias (const Field & F, RecInt::rint<K> & c, const RecInt::rint<K> & a, const RecInt::rint<K> & b)
+    {
+        RecInt::rint<K> t;
+        F.assign (c, F.sub (t, a, b));
+    }
 
     template <class Field, bool ADD>
     typename std::enable_if<FFLAS::support_simd_add<typename Field::Element>::value, void>::type
-- 
2.43.0


From 77b8ff446817b14c158854bb41656d55c27e7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:10 +0000
Subject: [PATCH 21/99] fix: Invert ignored the column permutation of its
 reduced echelon form, wrong inverse when a leading minor vanishes

---
 fflas-ffpack/ffpack/ffpack_invert.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/ffpack/ffpack_invert.inl b/fflas-ffpack/ffpack/ffpack_invert.inl
index 96058c0..2955015 100644
--- a/fflas-ffpack/ffpack/ffpack_invert.inl
+++ b/fflas-ffpack/ffpack/ffpack_invert.inl
@@ -49,6 +49,7 @@ namespace FFPACK {
         size_t R =  ReducedRowEchelonForm (F, M, M, A, lda, P, Q, true, FfpackGaussJordanTile);
         nullity = (int)(M - R);
         applyP (F, FFLAS::FflasRight, FFLAS::FflasNoTrans, M, 0, (int)R, A, lda, P);
+        applyP (F, FFLAS::FflasLeft, FFLAS::FflasTrans, M, 0, (int)R, A, lda, Q);
         FFLAS::fflas_delete(P);
         FFLAS::fflas_delete(Q);
 
-- 
2.43.0


From bf9cb0da8658935a7739bc860a4ee866923a304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:10 +0000
Subject: [PATCH 22/99] fix: ColRankProfileSubmatrixIndices initialised N
 entries of an array of M row indices

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 97d5d35..8095d79 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -216,7 +216,7 @@ namespace FFPACK{
         for (size_t i=0; i<R; ++i)
             colindices [i] = Q [i];
 
-        for (size_t i=0; i<N; ++i)
+        for (size_t i=0; i<M; ++i)
             rowindices [i] = i;
 
         size_t tmp;
-- 
2.43.0


From c41c1a9651c32174e296de484d0d2325e9b16d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:53 +0000
Subject: [PATCH 23/99] fix: RandomNullSpaceVector ignored the increment of its
 output when permuting it

---
 fflas-ffpack/ffpack/ffpack.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 0e4cdcc..18a00bb 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -248,7 +248,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, 1u, Q);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, incX, Q);
 
             FFLAS::fflas_delete(Q);
         }
@@ -289,7 +289,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasLower, FFLAS::FflasTrans, FFLAS::FflasUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasRight, FFLAS::FflasNoTrans, 1u, 0u, (int) M, X, 1u, P);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) M, X, incX, P);
 
             FFLAS::fflas_delete(P);
         }
-- 
2.43.0


From 4ecbbcc39d4778d775dcf86a79abc7ac8946712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:11 +0000
Subject: [PATCH 24/99] fix: ArithProgKrylovPrecond charpoly accepted degree
 sequences and Krylov bases whose block structure it had not verified, wrong
 polynomial on derogatory matrices

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 30 ++++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index a42fb54..4803f78 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -149,15 +149,19 @@ namespace FFPACK { namespace Protected {
                 // std::cerr << "FAIL in preconditionning phase:"
                 //           << " degree sequence is not monotonically not increasing"
                 // 	     << std::endl;
-                FFLAS::fflas_delete (K, Pk, Qk, dA, dK);
+                FFLAS::fflas_delete (K, K2, Pk, Qk, dA, dK);
                 throw CharpolyFailed();
             }
             dK[k] = dold = d;
             Mk++;
             if (d == degree)
                 nb_full_blocks++;
-            if (row_idx < N)
-                ii = Qk[row_idx];
+            if (row_idx < R && Qk[row_idx] != (k+1)*degree){
+                // The next independent row does not start a new block
+                FFLAS::fflas_delete (K, K2, Pk, Qk, dA, dK);
+                throw CharpolyFailed();
+            }
+            ii = (k+1)*degree;
         }
 #ifdef __FFLASFFPACK_ARITHPROG_PROFILING
         timelim.stop();
@@ -185,6 +189,10 @@ namespace FFPACK { namespace Protected {
         // K <- K U^-1
         ftrsm (F, FFLAS::FflasRight, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, Mk, R,F.one, K, ldk, K4, ldk);
 
+        // Component of K outside of the span of the Krylov basis (last N-R columns)
+        if (R < N)
+            fgemm (F, FFLAS::FflasNoTrans, FFLAS::FflasNoTrans, Mk, N-R, R, F.mOne, K4, ldk, K+R, ldk, F.one, K4+R, ldk);
+
         // L <-  Q^T L
         applyP(F, FFLAS::FflasLeft, FFLAS::FflasNoTrans, N, 0,(int) R, K, ldk, Qk);
 
@@ -200,7 +208,7 @@ namespace FFPACK { namespace Protected {
         size_t offset = Ncurr-1;
         for (size_t i=Mk-1; i>=nb_full_blocks+1;  --i){
             if (dK[i] >= 1){
-                for (size_t j = offset+1; j<R; ++j)
+                for (size_t j = offset+1; j<N; ++j)
                     if (!F.isZero(*(K4 + i*ldk + j))){
                         //std::cerr<<"FAIL C != 0 in preconditionning"<<std::endl;
                         FFLAS::fflas_delete (K,K3,K4,Pk,Qk,dA,dK);
@@ -223,18 +231,14 @@ namespace FFPACK { namespace Protected {
         std::cerr <<"  Similarity)              : "<<timsimilar.usertime()<<std::endl;
         timrest.start();
 #endif
+        // The remaining blocks must span an invariant subspace
+        if (Ncurr < N && ! FFLAS::fiszero (F, nb_full_blocks+1, N-Ncurr, K4+Ncurr, ldk)){
+            FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
+            throw CharpolyFailed();
+        }
         if (R<N){
                 // The Krylov basis did not span the whole space
                 // Recurse on the complementary subspace
-            if (! FFLAS::fiszero (F, nb_full_blocks+1, N-R, K4+R, ldk)){
-                
-            // for (size_t i=0; i<nb_full_blocks + 1; ++i)
-            //     for (size_t j=R; j<N; ++j){
-            //         if (!F.isZero( *(K4+i*ldk+j) )){
-                        FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
-                        throw CharpolyFailed();
-            }
-
             size_t Nrest = N-R;
             typename Field::Element_ptr K21 = K + R*ldk;
             typename Field::Element_ptr K22 = K21 + R;
-- 
2.43.0


From a4670a0e18270f876840d52525425a860b579b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:35 +0000
Subject: [PATCH 25/99] fix: ArithProg charpoly accepted rank profiles whose
 blocks do not start on a block boundary, wrong polynomial

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index 4803f78..72c90cd 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -388,6 +388,11 @@ namespace FFPACK { namespace Protected {
                     nb_full_blocks ++;
                 it_idx=0;
                 rp_val = rp[gg];
+                if (dtot < Ncurr && rp_val != block_idx*deg){
+                    // The next independent row does not start a new block
+                    FFLAS::fflas_delete (Arp, Ac, K, K3, rp, dA, dK);
+                    throw CharpolyFailed();
+                }
             }
 
             Mk = block_idx;
-- 
2.43.0


From c1593144d26d5f638341f7485499e2ead7e0e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:00 +0000
Subject: [PATCH 26/99] fix: LQUPtoInverseOfFullRankMinor left the upper factor
 in the inverse of the lower one, wrong inverse

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 8095d79..cc415b5 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -302,7 +302,11 @@ namespace FFPACK{
         // X <- (Qt.L.Q)^(-1)
         //invL( F, rank, A_factors, lda, X, ldx);
         ftrtri (F, FFLAS::FflasLower, FFLAS::FflasUnit, rank, A_factors, lda);
-        FFLAS::fassign(F,rank,rank,A_factors,lda,X,ldx);
+        for (size_t i=0; i<rank; ++i){
+            FFLAS::fassign (F, i, A_factors+i*lda, 1, X+i*ldx, 1);
+            F.assign (X[i*(ldx+1)], F.one);
+            FFLAS::fzero (F, rank-i-1, X+i*(ldx+1)+1, 1);
+        }
 
         // X = U^-1.X
         ftrsm( F, FFLAS::FflasLeft, FFLAS::FflasUpper, FFLAS::FflasNoTrans,
-- 
2.43.0


From d6d341e181c7ecd15d7e078d05509156297ae602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 27/99] fix: 2D splitting by grain or fixed size lost the end
 of the range when the remainder exceeded the number of blocks

---
 fflas-ffpack/paladin/blockcuts.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index c67650b..d4f0063 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -286,6 +286,9 @@ namespace FFLAS {
         BlockCuts<Cut,Param>(rowBlockSize, colBlockSize, m, n, numthreads);
         numRowBlock = m/rowBlockSize;
         numColBlock = n/colBlockSize;
+        // the remainder is spread at most one per block
+        if (numRowBlock) rowBlockSize = m/numRowBlock;
+        if (numColBlock) colBlockSize = n/numColBlock;
 
         changeRBS = m-rowBlockSize*numRowBlock;
         lastRBS = rowBlockSize;
-- 
2.43.0


From 69c6bb751e3f5e46c0ae20b1c0610693b8e30a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:34 +0000
Subject: [PATCH 28/99] fix: 1D splitting of a range [b,e) enumerated [0,e-b)
 instead

---
 fflas-ffpack/paladin/blockcuts.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index d4f0063..92e3046 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -328,10 +328,10 @@ namespace FFLAS {
 namespace FFLAS {
     template <typename blocksize_t=size_t, typename Cut=CuttingStrategy::Block, typename Param=StrategyParameter::Threads>
     struct ForStrategy1D {
-        ForStrategy1D(const blocksize_t n, const ParSeqHelper::Parallel<Cut,Param> H) {
+        ForStrategy1D(const blocksize_t n, const ParSeqHelper::Parallel<Cut,Param> H) : ifirst(0) {
             build(n,H);
         }
-        ForStrategy1D(const blocksize_t b, const blocksize_t e, const ParSeqHelper::Parallel<Cut,Param> H) {
+        ForStrategy1D(const blocksize_t b, const blocksize_t e, const ParSeqHelper::Parallel<Cut,Param> H) : ifirst(b) {
             build(e-b,H);
         }
 
@@ -355,7 +355,7 @@ namespace FFLAS {
         }
 
         blocksize_t initialize() {
-            ibeg = 0; iend = firstBlockSize;
+            ibeg = ifirst; iend = ifirst + firstBlockSize;
             return current = 0;
         }
         bool isTerminated() const { return current == numBlock; }
@@ -374,6 +374,7 @@ namespace FFLAS {
         }
 
     protected:
+        blocksize_t ifirst;
         blocksize_t ibeg, iend;
 
         blocksize_t current;
-- 
2.43.0


From 1c7e16e2d9bed30e15842b155fd2e63553561db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 29/99] fix: parallel fdot allocated one partial result per
 thread although grain and fixed splittings make more blocks

---
 fflas-ffpack/paladin/fflas_plevel1.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/fflas_plevel1.h b/fflas-ffpack/paladin/fflas_plevel1.h
index 53999ea..e7ab379 100644
--- a/fflas-ffpack/paladin/fflas_plevel1.h
+++ b/fflas-ffpack/paladin/fflas_plevel1.h
@@ -96,12 +96,13 @@ namespace FFLAS
          typename Field::Element& d,
          const ParSeqHelper::Parallel<Cut,Param> par)
     {
-        const size_t rs(par.numthreads());
+        // one partial result per block of the splitting, whatever the strategy
+        const size_t rs(ForStrategy1D<size_t,Cut,Param>(N,par).numblocks());
         typename Field::Element_ptr z(fflas_new(F,rs));
         for(size_t i=0;i<rs;++i) F.init(z[i]);
 
         SYNCH_GROUP({
-                    FORBLOCK1D(iter, N, SPLITTER(rs, Cut, Param), {
+                    FORBLOCK1D(iter, N, par, {
                                const size_t i( iter.blockindex() );
 
                                TASK(MODE(CONSTREFERENCE(F) READ(x,y) WRITE(z[i])), {
-- 
2.43.0


From 9b3f11ff1e0dd8d092515cde7f5b78134d37d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:49 +0000
Subject: [PATCH 30/99] fix: bounds of a lazy addition or subtraction were
 computed before knowing that they are representable (signed overflow)

---
 fflas-ffpack/fflas/fflas_fgemm.inl | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm.inl b/fflas-ffpack/fflas/fflas_fgemm.inl
index e833c98..cce1593 100644
--- a/fflas-ffpack/fflas/fflas_fgemm.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm.inl
@@ -103,8 +103,6 @@ namespace FFLAS{ namespace Protected{
                                      Element& Op2min, Element& Op2max,
                                      MMHelper<Field, AlgoT, ModeCategories::LazyTag, ParSeqTrait >& WH)
     {
-        Outmin = Op1min + Op2min;
-        Outmax = Op1max + Op2max;
         if (WH.MaxStorableValue - Op1max < Op2max ||
             WH.MaxStorableValue + Op1min < -Op2min){
             // Reducing both Op1 and Op2
@@ -113,7 +111,11 @@ namespace FFLAS{ namespace Protected{
             Outmin = 2*WH.FieldMin;
             Outmax = 2*WH.FieldMax;
             return true;
-        } else return false;
+        } else {
+            Outmin = Op1min + Op2min;
+            Outmax = Op1max + Op2max;
+            return false;
+        }
     }
 
     template <class Field, class Element, class AlgoT, class ModeT, class ParSeqTrait>
@@ -133,8 +135,6 @@ namespace FFLAS{ namespace Protected{
                                      Element& Op2min, Element& Op2max,
                                      MMHelper<Field, AlgoT, ModeCategories::LazyTag, ParSeqTrait >& WH)
     {
-        Outmin = Op1min - Op2max;
-        Outmax = Op1max - Op2min;
         if (WH.MaxStorableValue - Op1max < -Op2min ||
             WH.MaxStorableValue - Op2max < -Op1min){
             // Reducing both Op1 and Op2
@@ -143,7 +143,11 @@ namespace FFLAS{ namespace Protected{
             Outmin = WH.FieldMin-WH.FieldMax;
             Outmax = -Outmin;
             return true;
-        } else return false;
+        } else {
+            Outmin = Op1min - Op2max;
+            Outmax = Op1max - Op2min;
+            return false;
+        }
     }
 
     template <class Field, class Element, class AlgoT, class ModeT, class ParSeqTrait>
-- 
2.43.0


From 2cea104b11b64ade375642e4d6c853363ed03cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:49 +0000
Subject: [PATCH 31/99] fix: fsytrf leaked its workspace when the matrix has no
 such factorization

---
 fflas-ffpack/ffpack/ffpack_fsytrf.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_fsytrf.inl b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
index 0dc6389..2c55303 100644
--- a/fflas-ffpack/ffpack/ffpack_fsytrf.inl
+++ b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
@@ -692,7 +692,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, seq, threshold);
-        if (!success) return false;
+        if (!success) {
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
@@ -707,7 +710,10 @@ namespace FFPACK {
                         size_t threshold){
         typename Field::Element_ptr Dinv = FFLAS::fflas_new(F,N);
         bool success = fsytrf_nonunit (F, UpLo, N, A, lda, Dinv, 1, par, threshold);
-        if (!success) return false;
+        if (!success) {
+            FFLAS::fflas_delete(Dinv);
+            return false;
+        }
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
         for (size_t i=0; i<N; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
-- 
2.43.0


From 4e374b99fedccd9c79eb2acaed8c5a6d48ce10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:49 +0000
Subject: [PATCH 32/99] fix: MonotonicApplyP leaked its workspace when no pivot
 moves

---
 fflas-ffpack/ffpack/ffpack_permutation.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_permutation.inl b/fflas-ffpack/ffpack/ffpack_permutation.inl
index 1ee8142..58eb626 100644
--- a/fflas-ffpack/ffpack/ffpack_permutation.inl
+++ b/fflas-ffpack/ffpack/ffpack_permutation.inl
@@ -66,8 +66,10 @@ namespace FFPACK {
                 if(maxpiv < MathP[i]) maxpiv = MathP[i];
             }
         }
-        if (!pivrowstomove) // Permutation is the identity
+        if (!pivrowstomove) { // Permutation is the identity
+            delete[] MathP;
             return;
+        }
 
         for (size_t i=R; i<lenP; i++)
             if (MathP[i] != i)
-- 
2.43.0


From 6c8fa61ebb100ccf14278cde2624a89e75c5d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:49 +0000
Subject: [PATCH 33/99] fix: recursive parallel fgemv with a transposed matrix
 read the second half of A from a wrong column

---
 fflas-ffpack/paladin/pfgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemv.inl b/fflas-ffpack/paladin/pfgemv.inl
index c6f0234..2c7962f 100644
--- a/fflas-ffpack/paladin/pfgemv.inl
+++ b/fflas-ffpack/paladin/pfgemv.inl
@@ -52,7 +52,7 @@ namespace FFLAS
                         H1.parseq.set_numthreads(H.parseq.numthreads() >> 1);
                         H2.parseq.set_numthreads(H.parseq.numthreads() - H1.parseq.numthreads());
                         typename Field::ConstElement_ptr A1 = A;
-                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim);
+                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim2);
                         typename Field::Element_ptr C1 = Y;
                         typename Field::Element_ptr C2 = Y + Ydim2*incY;
                         if (ta==FflasNoTrans){
-- 
2.43.0


From f6b76bbfe51dde7f882b799569118648b6660799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:49 +0000
Subject: [PATCH 34/99] fix: hybrid parallel ftrsm looped forever or divided by
 zero on an empty right hand side

---
 fflas-ffpack/fflas/fflas_pftrsm.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_pftrsm.inl b/fflas-ffpack/fflas/fflas_pftrsm.inl
index 8b8d2fd..de3c715 100644
--- a/fflas-ffpack/fflas/fflas_pftrsm.inl
+++ b/fflas-ffpack/fflas/fflas_pftrsm.inl
@@ -92,6 +92,7 @@ namespace FFLAS {
     // const FFLAS::CuttingStrategy method,
     // const size_t numThreads)
     {
+        if (!m || !n) return B;
 
         if(Side == FflasRight){
 
-- 
2.43.0


From a5d2161035a800df74fee9c1ea2b61ea1c580856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:49 +0000
Subject: [PATCH 35/99] fix: MaxDelayedDim multiplied bounds whose product may
 overflow the element type

---
 fflas-ffpack/fflas/fflas_helpers.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_helpers.inl b/fflas-ffpack/fflas/fflas_helpers.inl
index 85478d4..2dea7de 100644
--- a/fflas-ffpack/fflas/fflas_helpers.inl
+++ b/fflas-ffpack/fflas/fflas_helpers.inl
@@ -182,11 +182,14 @@ namespace FFLAS {
             // This cast is needed when Cmin base type is int8/16_t,
             // getting -Cmin returns a int, not the same base type.
             DFElt diff = MaxStorableValue - absbeta * std::max(static_cast<const DFElt&>(-Cmin), Cmax);
-            DFElt AB = std::max(static_cast<const DFElt&>(-Amin), Amax) * std::max(static_cast<const DFElt&>(-Bmin), Bmax);
+            DFElt absA = std::max(static_cast<const DFElt&>(-Amin), Amax);
+            DFElt absB = std::max(static_cast<const DFElt&>(-Bmin), Bmax);
 
-            if ((diff < DFElt(0u))||(AB<DFElt(0u))) return 0;
+            if (diff < DFElt(0u)) return 0;
+            // absA * absB may not be representable
+            if ((absB > DFElt(0u)) && (absA > diff/absB)) return 0;
 
-            DFElt kmax = diff/AB;
+            DFElt kmax = diff/(absA*absB);
             return FFLAS::Protected::min_types<DFElt>(kmax);
             // if (kmax > std::numeric_limits<size_t>::max())
             // 	return std::numeric_limits<size_t>::max();
-- 
2.43.0


From 03c891cfacb7779b89c1b6584011cd62a1bb1e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:21 +0000
Subject: [PATCH 36/99] fix: parallel PLUQ did not reveal the rank profile
 matrix when a block is a single row or column

---
 fflas-ffpack/ffpack/ffpack_ppluq.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ppluq.inl b/fflas-ffpack/ffpack/ffpack_ppluq.inl
index 6540fab..7abdafd 100644
--- a/fflas-ffpack/ffpack/ffpack_ppluq.inl
+++ b/fflas-ffpack/ffpack/ffpack_ppluq.inl
@@ -95,7 +95,9 @@ namespace FFPACK {
             if (piv == N)
                 return 0;
             if (piv){
-                Q[0] = piv;
+                // rotating the columns, not swapping two of them: the non pivot
+                // columns must remain in increasing order
+                for (size_t i=0; i<piv; ++i) Q[i] = piv;
                 Fi.assign (*A, A[piv]);
                 Fi.assign (A[piv], Fi.zero);
             }
@@ -114,7 +116,7 @@ namespace FFPACK {
             if (piv == M)
                 return 0;
             if (piv){
-                P[0] = piv;
+                for (size_t i=0; i<piv; ++i) P[i] = piv;
                 Fi.assign (*A, *(A+piv*lda));
                 Fi.assign (*(A+piv*lda), Fi.zero);
             }
-- 
2.43.0


From 60f0654ac360d014e5d8cb92e709bd72abe904d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 37/99] fix: integer determinant was added to the previous
 value of its output argument

---
 fflas-ffpack/ffpack/ffpack_det_mp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 9a026c1..2bd2121 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -73,7 +73,7 @@ namespace FFPACK {
 
         FFLAS::finit_rns(Zrns,N,N,(Abs/16)+((Abs%16)?1:0),A,lda,Arns);
         Det(Zrns, Detrns, N, Arns, N, psH);
-        FFLAS::fconvert_rns (Zrns,1,1, Givaro::Integer(1),&det, 1, Detrns);
+        FFLAS::fconvert_rns (Zrns,1,1, Givaro::Integer(0),&det, 1, Detrns);
 
         FFLAS::fflas_delete(Arns);
         FFLAS::fflas_delete(Detrns);
-- 
2.43.0


From c9e5eb28909da6a479005c9a8f6fa71d8ce01727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 38/99] fix: residue base of the integer determinant left no
 room for the sign

---
 fflas-ffpack/ffpack/ffpack_det_mp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 2bd2121..811e8c4 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -63,7 +63,7 @@ namespace FFPACK {
         size_t Abs = FFLAS::bitsize(F,N,N,A,lda);
         // Hadamard's bound on the bitsize of the determinant over Z
         int64_t Detbs = (int64_t) ceil (N * (log(double(N))/(log(2.0)*2.0) + Abs));
-        Givaro::Integer Detbound = Givaro::Integer(1) << Detbs;
+        Givaro::Integer Detbound = Givaro::Integer(1) << (Detbs+1); // +1 for the sign
         FFPACK::rns_double RNS(Detbound, 23);
         typedef FFPACK::RNSInteger<FFPACK::rns_double> RnsDomain;
         RnsDomain Zrns(RNS);
-- 
2.43.0


From 5c89fe0fe5fe549b182259a0287011cb264461d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 39/99] fix: integer characteristic polynomial was added to the
 previous coefficients of its output argument

---
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index 54b6808..310e3f8 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -88,7 +88,7 @@ namespace FFPACK {
 
         //std::cerr<<"fconvert...";
         charp.resize(N+1);
-        FFLAS::fconvert_rns (Zrns,1,N+1, Givaro::Integer(1),&(charp[0]), N+1, CPrns);
+        FFLAS::fconvert_rns (Zrns,1,N+1, Givaro::Integer(0),&(charp[0]), N+1, CPrns);
         //std::cerr<<"...done"<<std::endl;
 
         FFLAS::fflas_delete(Arns);
-- 
2.43.0


From d26756d307cfa37716e13fbf4f9418c255e5163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 40/99] fix: residue base of the integer characteristic
 polynomial left no room for the sign

---
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index 310e3f8..80c6735 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -70,7 +70,7 @@ namespace FFPACK {
         // See [Dumas Pernet Wang ISSAC'05] for the following bound on the bitsize
         // of the coefficients of the characteristic polynomial
         int64_t CPbs = (int64_t) ceil(N/2.0*(log(double(N))/log(2.0)+2*Abs+0.21163275));
-        Givaro::Integer CPbound = Givaro::Integer(1) << CPbs;
+        Givaro::Integer CPbound = Givaro::Integer(1) << (CPbs+1); // +1 for the sign
 
         FFPACK::rns_double RNS(CPbound, 23);
         typedef FFPACK::RNSInteger<FFPACK::rns_double> RnsDomain;
-- 
2.43.0


From cc204dfaf48370a329ddfa462b3c19c14744d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 41/99] fix: integer characteristic polynomial of an empty
 matrix took the logarithm of zero

---
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index 80c6735..71629a0 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -66,6 +66,11 @@ namespace FFPACK {
              Givaro::ZRing<Givaro::Integer>::RandIter& G, const FFPACK_CHARPOLY_TAG CharpTag, size_t degree){
 
         const Givaro::ZRing<Givaro::Integer>& F = R.getdomain();
+        if (N == 0) {
+            charp.resize(1);
+            F.assign(charp[0], F.one);
+            return charp;
+        }
         size_t Abs = FFLAS::bitsize(F,N,N,A,lda);
         // See [Dumas Pernet Wang ISSAC'05] for the following bound on the bitsize
         // of the coefficients of the characteristic polynomial
-- 
2.43.0


From 15700c141ab04a2f2fe32d88b21d6aaa5beb0779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:52 +0000
Subject: [PATCH 42/99] fix: rns_double_extended lost the sign of the integers
 it splits

---
 fflas-ffpack/field/rns-double.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/field/rns-double.inl b/fflas-ffpack/field/rns-double.inl
index 7713129..cea3a04 100644
--- a/fflas-ffpack/field/rns-double.inl
+++ b/fflas-ffpack/field/rns-double.inl
@@ -540,7 +540,9 @@ namespace FFPACK {
     inline void rns_double_extended::init(size_t m, double* Arns, const integer* A, size_t lda) const{
         for(size_t i = 0 ; i < m ; ++i){
             for(size_t j = 0 ; j < _size ; ++j){
-                Arns[i*_size+j] = (double)((A[i*lda]%integer(_basis[j]))[0]);
+                integer r = A[i*lda]%integer(_basis[j]);
+                if (r < 0) r += integer(_basis[j]);
+                Arns[i*_size+j] = (double)(r[0]);
             }
         }
     }
-- 
2.43.0


From bc49e2c7754c9e0df0cd190a02dc399399d8a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 43/99] fix: parallel products over a residue number system
 returned before their tasks were done

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 81c3842..8e6f162 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -225,6 +225,7 @@ namespace FFLAS {
                         }
                         })
                   );
+        WAIT;
 #ifdef PROFILE_FGEMM_MP
         t.stop();
         std::cerr<<"=========================================="<<std::endl
@@ -297,6 +298,7 @@ namespace FFLAS {
                         }
                         }); // TASK
         ); // FLORBLOCK1D
+        WAIT;
 
 #ifdef PROFILE_FGEMM_MP
         t.stop();
-- 
2.43.0


From 06bfb46163e49f96488231a5a7311c709c0a518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:08 +0000
Subject: [PATCH 44/99] fix: without SIMD, the rns-major reduction skipped
 elements and used the wrong moduli

---
 fflas-ffpack/field/rns-double.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/field/rns-double.inl b/fflas-ffpack/field/rns-double.inl
index cea3a04..c575de1 100644
--- a/fflas-ffpack/field/rns-double.inl
+++ b/fflas-ffpack/field/rns-double.inl
@@ -513,10 +513,10 @@ namespace FFPACK {
                 }
             }
 #else
-            for(size_t i = 0 ; i < n ; i+= _size){
+            for(size_t i = 0 ; i < n ; i++){
                 for(size_t j = 0 ; j < _size ; ++j){
                     //_field_rns.reduce(Arns+i*_size+j);
-                    _field_rns[i].reduce(Arns[i*_size+j]);
+                    _field_rns[j].reduce(Arns[i*_size+j]);
                 }
             }
 #endif
@@ -617,10 +617,10 @@ namespace FFPACK {
 #else
 
         // TODO : SIMD version
-        for(size_t i = 0 ; i < n ; i+= _size){
+        for(size_t i = 0 ; i < n ; i++){
             for(size_t j = 0 ; j < _size ; ++j){
                 //_field_rns.reduce(Arns+i*_size+j);
-                _field_rns[i].reduce(Arns[i*_size+j]);
+                _field_rns[j].reduce(Arns[i*_size+j]);
             }
         }
 
-- 
2.43.0


From a468c30c67aa192c9938b99a6e0700bdbb8ea83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:54 +0000
Subject: [PATCH 45/99] fix: emulated SIMD shuffles of 16 and 32 bit integers
 read out of the vector for odd lanes

---
 fflas-ffpack/fflas/fflas_simd/simd128_int16.inl |  8 ++++----
 fflas-ffpack/fflas/fflas_simd/simd256_int16.inl | 16 ++++++++--------
 fflas-ffpack/fflas/fflas_simd/simd256_int32.inl |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl b/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
index 080f0e1..92ddaec 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
@@ -198,10 +198,10 @@ template <> struct Simd128_impl<true, true, true, 2> : public Simd128i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances.";
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x0000000F)], conv.t[( s      & 0x000000F0)],
-                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>> 8) & 0x000000F0)],
-                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>16) & 0x000000F0)],
-                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>24) & 0x000000F0)]);
+        return set (conv.t[( s      & 0x0000000F)], conv.t[((s>> 4) & 0x0000000F)],
+                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>>12) & 0x0000000F)],
+                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>20) & 0x0000000F)],
+                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>28) & 0x0000000F)]);
     }
 
     /*
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
index 68ed9c4..3116ad6 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
@@ -216,14 +216,14 @@ template <> struct Simd256_impl<true, true, true, 2> : public Simd256i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances.";
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x000000000000000F)], conv.t[( s      & 0x00000000000000F0)],
-                    conv.t[((s>> 8) & 0x000000000000000F)], conv.t[((s>> 8) & 0x00000000000000F0)],
-                    conv.t[((s>>16) & 0x000000000000000F)], conv.t[((s>>16) & 0x00000000000000F0)],
-                    conv.t[((s>>24) & 0x000000000000000F)], conv.t[((s>>24) & 0x00000000000000F0)],
-                    conv.t[((s>>32) & 0x000000000000000F)], conv.t[((s>>32) & 0x00000000000000F0)],
-                    conv.t[((s>>40) & 0x000000000000000F)], conv.t[((s>>40) & 0x00000000000000F0)],
-                    conv.t[((s>>48) & 0x000000000000000F)], conv.t[((s>>48) & 0x00000000000000F0)],
-                    conv.t[((s>>56) & 0x000000000000000F)], conv.t[((s>>56) & 0x00000000000000F0)]);
+        return set (conv.t[( s      & 0x000000000000000F)], conv.t[((s>> 4) & 0x000000000000000F)],
+                    conv.t[((s>> 8) & 0x000000000000000F)], conv.t[((s>>12) & 0x000000000000000F)],
+                    conv.t[((s>>16) & 0x000000000000000F)], conv.t[((s>>20) & 0x000000000000000F)],
+                    conv.t[((s>>24) & 0x000000000000000F)], conv.t[((s>>28) & 0x000000000000000F)],
+                    conv.t[((s>>32) & 0x000000000000000F)], conv.t[((s>>36) & 0x000000000000000F)],
+                    conv.t[((s>>40) & 0x000000000000000F)], conv.t[((s>>44) & 0x000000000000000F)],
+                    conv.t[((s>>48) & 0x000000000000000F)], conv.t[((s>>52) & 0x000000000000000F)],
+                    conv.t[((s>>56) & 0x000000000000000F)], conv.t[((s>>60) & 0x000000000000000F)]);
     }
 
     /*
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
index 3d96675..320d327 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
@@ -222,10 +222,10 @@ template <> struct Simd256_impl<true, true, true, 4> : public Simd256i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances."
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x0000000F)], conv.t[( s      & 0x000000F0)],
-                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>> 8) & 0x000000F0)],
-                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>16) & 0x000000F0)],
-                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>24) & 0x000000F0)]);
+        return set (conv.t[( s      & 0x0000000F)], conv.t[((s>> 4) & 0x0000000F)],
+                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>>12) & 0x0000000F)],
+                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>20) & 0x0000000F)],
+                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>28) & 0x0000000F)]);
     }
 
     /*
-- 
2.43.0


From cb687a272eab126b78ea9db0fe9e3bf683297cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:54 +0000
Subject: [PATCH 46/99] fix: FieldSimd add and sub did not reduce their result
 for all fields

---
 .../fflas/fflas_simd/simd_modular.inl         | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
index 1c7525c..0d11b31 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd_modular.inl
@@ -63,6 +63,16 @@ private:
         }
     }
 
+    // one correction step, on both sides as the representation may be signed
+    INLINE vect_t normalize(vect_t &c) {
+        vect_t t;
+        _mask = simd::greater(c, _max);
+        t = simd::lesser(c, _min);
+        _mask = simd::vand(_mask, _modulus);
+        t = simd::vand(t, _modulus);
+        return c = simd::add(simd::sub(c, _mask), t);
+    }
+
 public:
     FieldSimd(const Self &) = default;
     FieldSimd(Self &&) = default;
@@ -76,17 +86,12 @@ public:
 
     INLINE vect_t add(vect_t &c, const vect_t a, const vect_t b) {
         c = simd::add(a, b);
-        _mask = simd::greater(c, _max);
-        _mask = simd::vand(_mask, _modulus);
-        return c = simd::sub(c, _mask);
+        return normalize(c);
     }
 
     INLINE vect_t add(const vect_t a, const vect_t b) {
         vect_t c;
-        c = simd::add(a, b);
-        _mask = simd::greater(c, _max);
-        _mask = simd::vand(_mask, _modulus);
-        return c = simd::sub(c, _mask);
+        return add(c, a, b);
     }
 
     INLINE vect_t addin(vect_t &a, const vect_t b) const { return a = add(a, b); }
@@ -99,17 +104,12 @@ public:
 
     INLINE vect_t sub(vect_t &c, const vect_t a, const vect_t b) {
         c = simd::sub(a, b);
-        _mask = simd::lesser(c, _min);
-        _mask = simd::vand(_mask, _modulus);
-        return c = simd::add(c, _mask);
+        return normalize(c);
     }
 
     INLINE vect_t sub(const vect_t a, const vect_t b) {
         vect_t c;
-        c = simd::sub(a, b);
-        _mask = simd::greater(c, _max);
-        _mask = simd::vand(_mask, _modulus);
-        return c = simd::add(c, _mask);
+        return sub(c, a, b);
     }
 
     INLINE vect_t subin(vect_t &a, const vect_t b) const { return a = sub(a, b); }
-- 
2.43.0


From d84b788884207f72ae06ff094cec7a1c9c90c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:47 +0000
Subject: [PATCH 47/99] fix: sparse block products scaled and reduced y with
 the wrong leading dimension

---
 fflas-ffpack/fflas/fflas_sparse.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 1aaf816..2ca284b 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -53,9 +53,9 @@ namespace FFLAS {
                 if (F.isZero(b)) {
                     fzero(F, m, n, y, ldy);
                 } else if (F.isMOne(b)) {
-                    fnegin(F, m, n, y, 1);
+                    fnegin(F, m, n, y, ldy);
                 } else {
-                    fscalin(F, m, n, b, y, 1);
+                    fscalin(F, m, n, b, y, ldy);
                 }
             }
         }
@@ -379,7 +379,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                   ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #if defined(__FFLASFFPACK_USE_OPENMP)
@@ -544,7 +544,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                    ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #endif // __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
-- 
2.43.0


From ebf45038ae7299478a4f839263787d63633b61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:04 +0000
Subject: [PATCH 48/99] fix: sparse products by a matrix of equal non-unit
 entries ignored the scaling of x

---
 fflas-ffpack/fflas/fflas_sparse.inl | 50 ++++++++++++++---------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 2ca284b..046af0a 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -164,7 +164,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::GenericTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -180,7 +180,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -199,7 +199,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one_simd(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one_simd(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
             // #else
@@ -315,9 +315,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -344,13 +344,13 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
-                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -366,9 +366,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -478,9 +478,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -509,13 +509,13 @@ namespace FFLAS {
                                                                     FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
-                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                    FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -531,9 +531,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
-- 
2.43.0


From 4c8520a1adbeb106154e586ebad0b1fa69fcd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:04 +0000
Subject: [PATCH 49/99] fix: sparse block products used aligned accesses with
 unaligned leading dimensions

---
 fflas-ffpack/fflas/fflas_sparse.inl | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 046af0a..3a45883 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -261,7 +261,7 @@ namespace FFLAS {
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -285,7 +285,7 @@ namespace FFLAS {
                 freduce(F, A.m, blockSize, y, ldy);
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -328,7 +328,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
@@ -336,7 +336,7 @@ namespace FFLAS {
                                                                   FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -346,7 +346,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
                 fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
-                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
@@ -422,7 +422,7 @@ namespace FFLAS {
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -446,7 +446,7 @@ namespace FFLAS {
                 freduce(F, A.m, blockSize, y, ldy);
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -493,7 +493,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -501,7 +501,7 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 } else {
@@ -511,7 +511,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
                 fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
-                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
-- 
2.43.0


From 8995d744ac58a832e4887fe2f2a7d0109d6a2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:49 +0000
Subject: [PATCH 50/99] fix: COO sparse vector product overflowed and left rows
 unreduced

---
 .../fflas/fflas_sparse/coo/coo_spmv.inl       | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
index 18977ad..a4e83dd 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
@@ -115,6 +115,7 @@ namespace FFLAS {
             assume_aligned(row, A.row, (size_t)Alignment::CACHE_LINE);
             assume_aligned(x, x_, (size_t)Alignment::DEFAULT);
             assume_aligned(y, y_, (size_t)Alignment::DEFAULT);
+            if (A.nnz == 0) return;
             size_t w = 0;
             index_t larow_i = 0;
             typename Field::Element e;
@@ -123,27 +124,23 @@ namespace FFLAS {
             size_t accu = 0;
 
             while (w < A.nnz) {
-                if (row[w] == larow_i) { // same line
-                    if (accu < (size_t)kmax) {
-                        e += dat[w] * x[col[w]];
-                        accu += 1;
-                    } else {
-                        F.axpyin(e, dat[w], x[col[w]]);
-                        accu = 0;
-                    }
-                } else { // new line
-                    F.init(y[larow_i]);
-                    F.assign(y[larow_i], e);
+                if (row[w] != larow_i) { // new line
+                    F.reduce(y[larow_i], e);
                     larow_i = row[w];
-                    F.init(e);
                     F.assign(e, y[larow_i]);
+                    accu = 0;
+                }
+                if (accu < (size_t)kmax) {
                     e += dat[w] * x[col[w]];
-                    accu = 1;
+                    accu += 1;
+                } else {
+                    F.reduce(e);
+                    F.axpyin(e, dat[w], x[col[w]]);
+                    accu = 0;
                 }
                 ++w;
             }
-            F.init(y[larow_i]);
-            F.assign(y[larow_i], e);
+            F.reduce(y[larow_i], e);
         }
 
         template <class Field>
-- 
2.43.0


From 050e3643a62a559a77322ad1bacad2e1820b2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:49 +0000
Subject: [PATCH 51/99] fix: COO sparse block product was not implemented for
 moduli without delayed reduction

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
index 3a200ea..0494ce9 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
@@ -174,21 +174,21 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                           const int64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_aligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                        typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                        const int64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_unaligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                          typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                          const int64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
-- 
2.43.0


From 7f7937102494dfa2c07cfc84e7d785c80812333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:49 +0000
Subject: [PATCH 52/99] fix: CSR_HYB stored the columns before sorting the
 entries

---
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
index 8372dd2..1d6e136 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
@@ -124,10 +124,6 @@ namespace FFLAS {
         for (uint64_t i = 0; i < 4 * (rowdim + 1); ++i)
             A.st[i] = 0;
 
-        for (size_t i = 0; i < nnz; ++i) {
-            A.col[i] = static_cast<index_t>(data[i].col);
-        }
-
         data.shrink_to_fit();
 
         // sort nnz by row with order -1 1 L
@@ -150,6 +146,7 @@ namespace FFLAS {
 
         uint64_t it = 0;
         for (size_t i = 0; i < data.size(); ++i) {
+            A.col[i] = static_cast<index_t>(data[i].col);
             if (!F.isOne(data[i].val) && !F.isMOne(data[i].val)) {
                 A.dat[it] = data[i].val;
                 ++it;
-- 
2.43.0


From 74af9e508abbc9befef0d6a0dca7b4bb283f28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:49 +0000
Subject: [PATCH 53/99] fix: CSR_HYB vector product was not implemented for
 moduli without delayed reduction

---
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
index 6b91d6b..5c7a13e 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
@@ -118,8 +118,7 @@ namespace FFLAS {
         template <class Field>
         inline void fspmv(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, typename Field::ConstElement_ptr x_,
                           typename Field::Element_ptr y_, const uint64_t kmax) {
-            return;
-            // TODO
+            fspmv(F, A, x_, y_, FieldCategories::GenericTag());
         }
 
     } // CSR_HYB_details
-- 
2.43.0


From 5cf9719fc3a92d7115815973615db054e1f72580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:06 +0000
Subject: [PATCH 54/99] fix: CSR_HYB block product was not implemented for
 moduli without delayed reduction

---
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
index 495aebc..6a08c11 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
@@ -287,7 +287,7 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                           const int64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
 #ifdef __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
@@ -296,14 +296,14 @@ namespace FFLAS {
         inline void fspmm_simd_aligned(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, size_t blockSize,
                                        typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                        uint64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_unaligned(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, size_t blockSize,
                                          typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                          uint64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
         }
 
 #endif
-- 
2.43.0


From 690bb9c32919940ca3b26572f4e3b187b859cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:06 +0000
Subject: [PATCH 55/99] fix: generic CSR_ZO vector product added unreduced
 partial sums

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
index c50fe9f..32474dc 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
@@ -239,7 +239,10 @@ namespace FFLAS {
                 for (; j < diff; ++j) {
                     F.addin(y1, x[col[start + j]]);
                 }
-                F.addin(y[i], y1 + y2 + y3 + y4);
+                F.addin(y[i], y1);
+                F.addin(y[i], y2);
+                F.addin(y[i], y3);
+                F.addin(y[i], y4);
             }
         }
 
@@ -265,7 +268,10 @@ namespace FFLAS {
                 for (; j < diff; ++j) {
                     F.addin(y1, x[col[start + j]]);
                 }
-                F.subin(y[i], y1 + y2 + y3 + y4);
+                F.subin(y[i], y1);
+                F.subin(y[i], y2);
+                F.subin(y[i], y3);
+                F.subin(y[i], y4);
             }
         }
 
-- 
2.43.0


From 0be2a0400d000568024ca25574adeaf469307c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:06 +0000
Subject: [PATCH 56/99] fix: sparse_delete of HYB_ZO leaked its parts

---
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl       | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
index fa775ee..70770d5 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
@@ -32,12 +32,18 @@ namespace FFLAS {
     // #define HYB_ZO_DEBUG 1
 
     template <class Field> inline void sparse_delete(const Sparse<Field, SparseMatrix_t::HYB_ZO> &A) {
-        if (A.dat != nullptr)
+        if (A.dat != nullptr) {
             sparse_delete(*(A.dat));
-        if (A.one != nullptr)
+            delete A.dat;
+        }
+        if (A.one != nullptr) {
             sparse_delete(*(A.one));
-        if (A.mone != nullptr)
+            delete A.one;
+        }
+        if (A.mone != nullptr) {
             sparse_delete(*(A.mone));
+            delete A.mone;
+        }
     }
 
     template <class Field, class IndexT>
-- 
2.43.0


From 71914c7f70c65dcdf99d5e99dc34fcc281d38895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:06 +0000
Subject: [PATCH 57/99] fix: sparse_delete of CSR leaked the row ends

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
index f148df5..4fdca1b 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
@@ -30,6 +30,7 @@ namespace FFLAS {
         fflas_delete(A.dat);
         fflas_delete(A.col);
         fflas_delete(A.st);
+        fflas_delete(A.stend);
     }
 
     template <class Field> inline void sparse_delete(const Sparse<Field, SparseMatrix_t::CSR_ZO> &A) {
-- 
2.43.0


From 4d0fcc4e3d3ec69d35150a1b14ae7b986d97b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:27 +0000
Subject: [PATCH 58/99] fix: HYB_ZO always delayed the reductions whatever the
 row length and modulus

---
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl   | 16 ++++++----------
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl    | 16 ++++++----------
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl    |  4 ++--
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl   |  6 +++++-
 4 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
index d69258b..1f3a68b 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_pspmm.inl
@@ -93,9 +93,9 @@ namespace FFLAS {
         inline void pfspmm(const Field &F, const Sparse<Field, SparseMatrix_t::HYB_ZO> &A, size_t blockSize,
                            typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy, uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::pfspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+                sparse_details_impl::pfspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::pfspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+                sparse_details_impl::pfspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -107,11 +107,9 @@ namespace FFLAS {
                                         typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                         uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::pfspmm_one_simd_aligned(F, *(A.one), blockSize, x, ldx, y, ldy,
-                                                             FieldCategories::UnparametricTag());
+                sparse_details_impl::pfspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::pfspmm_mone_simd_aligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
-                                                              FieldCategories::UnparametricTag());
+                sparse_details_impl::pfspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmm_simd_aligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -121,11 +119,9 @@ namespace FFLAS {
                                           typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                           uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::pfspmm_one_simd_unaligned(F, *(A.one), blockSize, x, ldx, y, ldy,
-                                                               FieldCategories::UnparametricTag());
+                sparse_details_impl::pfspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::pfspmm_mone_simd_unaligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
-                                                                FieldCategories::UnparametricTag());
+                sparse_details_impl::pfspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::pfspmm_simd_unaligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
index c859447..5be4a45 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
@@ -92,9 +92,9 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::HYB_ZO> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy, uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -106,11 +106,9 @@ namespace FFLAS {
                                        typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                        uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmm_one_simd_aligned(F, *(A.one), blockSize, x, ldx, y, ldy,
-                                                            FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone_simd_aligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
-                                                             FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm_simd_aligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -120,11 +118,9 @@ namespace FFLAS {
                                          typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                          uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmm_one_simd_unaligned(F, *(A.one), blockSize, x, ldx, y, ldy,
-                                                              FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone_simd_unaligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
-                                                               FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm_simd_unaligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
index e80fcd0..479cbbf 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
@@ -56,9 +56,9 @@ namespace FFLAS {
         inline void fspmv(const Field &F, const Sparse<Field, SparseMatrix_t::HYB_ZO> &A, typename Field::ConstElement_ptr x,
                           typename Field::Element_ptr y, uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmv_one(F, *(A.one), x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one(F, *(A.one), x, y, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmv_mone(F, *(A.mone), x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_mone(F, *(A.mone), x, y, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmv(F, *(A.dat), x, y, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
index 70770d5..c7eccc5 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
@@ -53,7 +53,11 @@ namespace FFLAS {
         A.m = rowdim;
         A.n = coldim;
         A.nnz = nnz;
-        A.delayed = true;
+        A.kmax = Protected::DotProdBoundClassic(F, F.one);
+        std::vector<uint64_t> rows(rowdim, 0);
+        for (uint64_t i = 0; i < nnz; ++i)
+            A.maxrow = std::max(A.maxrow, ++rows[row[i]]);
+        A.delayed = (A.kmax > A.maxrow);
         A.nElements = nnz;
         uint64_t nOnes = 0, nMOnes = 0, nOthers = 0;
         for (uint64_t i = 0; i < nnz; ++i) {
-- 
2.43.0


From 636d31474fa84bc6b06b62ed67d648068fe6aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:27 +0000
Subject: [PATCH 59/99] fix: building a sparse matrix without rows or without
 entries read out of the arrays

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_utils.inl         | 4 ++--
 fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl         | 4 ++--
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl | 2 +-
 fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl         | 8 ++++----
 .../fflas/fflas_sparse/ell_simd/ell_simd_utils.inl        | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_utils.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_utils.inl
index 814dd72..9124012 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_utils.inl
@@ -51,7 +51,7 @@ namespace FFLAS {
         std::vector<uint64_t> rows(rowdim, 0);
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i]]++;
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
         if (A.kmax > A.maxrow)
             A.delayed = true;
         A.col = fflas_new<index_t>(nnz, Alignment::CACHE_LINE);
@@ -76,7 +76,7 @@ namespace FFLAS {
         std::vector<uint64_t> rows(A.m, 0);
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i]]++;
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
         if (A.kmax > A.maxrow)
             A.delayed = true;
 
diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
index 4fdca1b..0dd5f67 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_utils.inl
@@ -197,7 +197,7 @@ namespace FFLAS {
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i]]++;
 
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
 
         if (A.kmax > A.maxrow)
             A.delayed = true;
@@ -231,7 +231,7 @@ namespace FFLAS {
         std::vector<uint64_t> rows(A.m, 0);
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i]]++;
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
         A.col = fflas_new<index_t>(nnz, Alignment::CACHE_LINE);
         A.st = fflas_new<index_t>(rowdim + 1, Alignment::CACHE_LINE);
         for (size_t i = 0; i < nnz; ++i) {
diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
index 1d6e136..149ca56 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
@@ -94,7 +94,7 @@ namespace FFLAS {
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i]]++;
 
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
 
         if (A.kmax > A.maxrow)
             A.delayed = true;
diff --git a/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl b/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl
index 92090dc..19b1272 100644
--- a/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl
@@ -50,7 +50,7 @@ namespace FFLAS {
         std::vector<uint64_t> rows(A.m, 0);
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i]]++;
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
         // cout << "maxrow : " << A.maxrow << endl;
         A.ld = A.maxrow;
         if (A.kmax > A.maxrow)
@@ -65,7 +65,7 @@ namespace FFLAS {
             F.assign(A.dat[i], F.zero);
         }
 
-        size_t currow = row[0], it = 0;
+        size_t currow = nnz ? row[0] : 0, it = 0;
         for (size_t i = 0; i < nnz; ++i) {
             if (row[i] != currow) {
                 it = 0;
@@ -87,7 +87,7 @@ namespace FFLAS {
         std::vector<uint64_t> rows(A.m, 0);
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i]]++;
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
         A.ld = A.maxrow;
         if (A.kmax > A.maxrow)
             A.delayed = true;
@@ -98,7 +98,7 @@ namespace FFLAS {
             A.col[i] = 0;
         }
 
-        size_t currow = row[0], it = 0;
+        size_t currow = nnz ? row[0] : 0, it = 0;
 
         for (size_t i = 0; i < nnz; ++i) {
             if (row[i] != currow) {
diff --git a/fflas-ffpack/fflas/fflas_sparse/ell_simd/ell_simd_utils.inl b/fflas-ffpack/fflas/fflas_sparse/ell_simd/ell_simd_utils.inl
index 2dc6615..c683a4f 100644
--- a/fflas-ffpack/fflas/fflas_sparse/ell_simd/ell_simd_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/ell_simd/ell_simd_utils.inl
@@ -67,7 +67,7 @@ namespace FFLAS {
         std::vector<uint64_t> rows(A.m + 1, 0);
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i] + 1]++;
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
         A.ld = A.maxrow;
         if (A.kmax > A.maxrow)
             A.delayed = true;
@@ -121,7 +121,7 @@ namespace FFLAS {
         std::vector<uint64_t> rows(A.m + 1, 0);
         for (uint64_t i = 0; i < A.nnz; ++i)
             rows[row[i] + 1]++;
-        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.maxrow = rows.empty() ? 0 : *(std::max_element(rows.begin(), rows.end()));
         A.ld = A.maxrow;
         if (A.kmax > A.maxrow)
             A.delayed = true;
-- 
2.43.0


From a2f9bc3c20a5b881808c1c7c769e5bbb01016878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 60/99] fix: CSR_HYB block product read the vectors from y and
 the wrong coefficients

---
 .../fflas_sparse/csr_hyb/csr_hyb_spmm.inl     | 64 +++++++++----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
index 6a08c11..a9247ca 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
@@ -69,13 +69,13 @@ namespace FFLAS {
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
                     for (; k < ROUND_DOWN(blockSize, 4); k += 4) {
-                        F.axpyin(y[i * ldy + k], dat[startDat + k], x[col[j] * ldx + k]);
-                        F.axpyin(y[i * ldy + k + 1], dat[startDat + k], x[col[j] * ldx + k + 1]);
-                        F.axpyin(y[i * ldy + k + 2], dat[startDat + k], x[col[j] * ldx + k + 2]);
-                        F.axpyin(y[i * ldy + k + 3], dat[startDat + k], x[col[j] * ldx + k + 3]);
+                        F.axpyin(y[i * ldy + k], dat[startDat + j - start], x[col[j] * ldx + k]);
+                        F.axpyin(y[i * ldy + k + 1], dat[startDat + j - start], x[col[j] * ldx + k + 1]);
+                        F.axpyin(y[i * ldy + k + 2], dat[startDat + j - start], x[col[j] * ldx + k + 2]);
+                        F.axpyin(y[i * ldy + k + 3], dat[startDat + j - start], x[col[j] * ldx + k + 3]);
                     }
                     for (; k < blockSize; ++k)
-                        F.axpyin(y[i * ldy + k], dat[startDat + k], x[col[j] * ldx + k]);
+                        F.axpyin(y[i * ldy + k], dat[startDat + j - start], x[col[j] * ldx + k]);
                 }
             }
         }
@@ -119,13 +119,13 @@ namespace FFLAS {
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
                     for (; k < ROUND_DOWN(blockSize, 4); k += 4) {
-                        y[i * ldy + k] += dat[startDat + j] * x[col[j] * ldx + k];
-                        y[i * ldy + k + 1] += dat[startDat + j] * x[col[j] * ldx + k + 1];
-                        y[i * ldy + k + 2] += dat[startDat + j] * x[col[j] * ldx + k + 2];
-                        y[i * ldy + k + 3] += dat[startDat + j] * x[col[j] * ldx + k + 3];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
+                        y[i * ldy + k + 1] += dat[startDat + j - start] * x[col[j] * ldx + k + 1];
+                        y[i * ldy + k + 2] += dat[startDat + j - start] * x[col[j] * ldx + k + 2];
+                        y[i * ldy + k + 3] += dat[startDat + j - start] * x[col[j] * ldx + k + 3];
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] += dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
@@ -151,14 +151,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -170,14 +170,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -187,22 +187,22 @@ namespace FFLAS {
                 index_t startDat = st[4 * i + 3];
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
-                    vdat = simd::set1(dat[startDat + j]);
+                    vdat = simd::set1(dat[startDat + j - start]);
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::fmadd(vy2, vdat, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] -= dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
@@ -226,14 +226,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -245,14 +245,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -262,22 +262,22 @@ namespace FFLAS {
                 index_t startDat = st[4 * i + 3];
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
-                    vdat = simd::set1(dat[startDat + j]);
+                    vdat = simd::set1(dat[startDat + j - start]);
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::fmadd(vy2, vdat, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] -= dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
-- 
2.43.0


From 9889f2218bfd41bfb91daafb14d803af7be97173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 61/99] fix: ELL block products mixed up the leading dimensions
 of x and y

---
 .../fflas/fflas_sparse/ell/ell_spmm.inl       | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
index c9a424b..741c014 100644
--- a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
@@ -446,13 +446,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -478,13 +478,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -510,13 +510,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
@@ -542,13 +542,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
-- 
2.43.0


From 48db3ae6b57b17a06c93f7be71a4fb4218fb4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 62/99] fix: parallel block product by minus a 0-1 CSR matrix
 added the remaining columns

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
index f52b7b3..34f5ff3 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
@@ -821,7 +821,7 @@ inline void pfspmm_mone_simd_aligned(const Field &F, const Sparse<Field, SparseM
                                 simd::store(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
@@ -893,7 +893,7 @@ inline void pfspmm_mone_simd_unaligned(const Field &F, const Sparse<Field, Spars
                                 simd::storeu(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
-- 
2.43.0


From 060b67ac2d34f44ccae24342d04921cebbd03318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:51 +0000
Subject: [PATCH 63/99] fix: sparse products overflowed when one product
 already exceeds the accumulation bound

---
 fflas-ffpack/fflas/fflas_sparse.inl | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 3a45883..b6b7744 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -124,6 +124,8 @@ namespace FFLAS {
             if (A.delayed) {
                 sparse_details::fspmv(F, A, x, y, FieldCategories::UnparametricTag(), std::false_type());
                 freduce(F, A.m, y, 1);
+            } else if (A.kmax <= 1) { // one product may already be too large to be accumulated
+                sparse_details_impl::fspmv(F, A, x, y, FieldCategories::GenericTag());
             } else {
                 sparse_details_impl::fspmv(F, A, x, y, A.kmax);
             }
@@ -283,6 +285,8 @@ namespace FFLAS {
                 sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(),
                                       typename std::false_type());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) {
+                sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 using simd = Simd<typename Field::Element>;
                 if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
@@ -300,6 +304,8 @@ namespace FFLAS {
             if (A.delayed) {
                 sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(), NotZOSparseMatrix());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) {
+                sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, A.kmax);
             }
@@ -444,6 +450,8 @@ namespace FFLAS {
                 sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(),
                                        typename std::false_type());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) {
+                sparse_details_impl::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 using simd = Simd<typename Field::Element>;
                 if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
@@ -461,6 +469,8 @@ namespace FFLAS {
             if (A.delayed) {
                 sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(), NotZOSparseMatrix());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) {
+                sparse_details_impl::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 sparse_details_impl::pfspmm(F, A, blockSize, x, ldx, y, ldy, A.kmax);
             }
-- 
2.43.0


From c2767ff6e03db558971773bf420f185101015649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:45 +0000
Subject: [PATCH 64/99] fix: block product by a 0-1 sparse matrix scaled by -1
 used -1 as if it were a reduced scalar

---
 fflas-ffpack/fflas/fflas_sparse.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index b6b7744..2570155 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -318,7 +318,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::GenericTag, ZOSparseMatrix) {
             if (F.isOne(A.cst)) {
                 sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1 || F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
@@ -341,7 +341,7 @@ namespace FFLAS {
                     sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 }
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1 || F.isMOne(A.cst)) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
@@ -369,7 +369,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             if (F.isOne(A.cst)) {
                 sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1 || F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
@@ -485,7 +485,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::GenericTag, ZOSparseMatrix) {
             if (F.isOne(A.cst)) {
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1 || F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
@@ -510,7 +510,7 @@ namespace FFLAS {
                     sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
                                                                    FieldCategories::UnparametricTag());
                 }
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1 || F.isMOne(A.cst)) {
                 if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
@@ -538,7 +538,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             if (F.isOne(A.cst)) {
                 sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
-            } else if (F.isMOne(A.cst)) {
+            } else if (A.cst == -1 || F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
-- 
2.43.0


From 157425591642df84469d6113c47b65d33ccee5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:02 +0000
Subject: [PATCH 65/99] fix: products by long rows of 0-1 sparse matrices
 summed the row without any reduction

---
 fflas-ffpack/fflas/fflas_sparse.inl | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 2570155..ab23f82 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -218,10 +218,22 @@ namespace FFLAS {
             // #endif // SIMD
         }
 
+        // whether a whole row can be summed before being reduced
+        template <class Field, class SM>
+        inline bool zo_delayed(const Field &F, const SM &A) {
+            Givaro::Integer p;
+            F.characteristic(p);
+            return Givaro::Integer(A.maxrow + 1) * p <= Givaro::Integer(limits<typename Field::Element>::max());
+        }
+
         template <class Field, class SM>
         inline void
         fspmv(const Field &F, const SM &A, typename Field::ConstElement_ptr x, typename Field::Element_ptr y,
               FieldCategories::ModularTag, std::true_type) {
+            if (!zo_delayed(F, A)) {
+                sparse_details::fspmv<Field, SM>(F, A, x, y, FieldCategories::GenericTag(), std::true_type());
+                return;
+            }
             sparse_details::fspmv<Field, SM>(F, A, x, y, FieldCategories::UnparametricTag(), std::true_type());
             freduce(F, A.m, y, 1);
         }
@@ -383,6 +395,10 @@ namespace FFLAS {
         inline void
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
+            if (!zo_delayed(F, A)) {
+                sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag(), ZOSparseMatrix());
+                return;
+            }
             sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                   ZOSparseMatrix());
             freduce(F, A.m, blockSize, y, ldy);
@@ -552,6 +568,10 @@ namespace FFLAS {
         inline void
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
+            if (!zo_delayed(F, A)) {
+                sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag(), ZOSparseMatrix());
+                return;
+            }
             sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                    ZOSparseMatrix());
             freduce(F, A.m, blockSize, y, ldy);
-- 
2.43.0


From 1435e202618ce54ff81b324ba5c860c62607b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:32 +0000
Subject: [PATCH 66/99] fix: CSR_HYB initialization of a matrix without rows
 wrote out of bounds

---
 .../fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
index 149ca56..1a9b7ec 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
@@ -153,10 +153,12 @@ namespace FFLAS {
             }
         }
 
-        A.st[1] = rows[0];
-        A.st[2] = rows[1] + A.st[1];
-        A.st[3] = 0;
-        A.st[4] = rows[2] + A.st[2];
+        if (rowdim > 0) {
+            A.st[1] = rows[0];
+            A.st[2] = rows[1] + A.st[1];
+            A.st[3] = 0;
+            A.st[4] = rows[2] + A.st[2];
+        }
 
         for (uint64_t i = 1; i < rowdim; ++i) {
             A.st[4 * i + 1] = rows[3 * i] + A.st[4 * i];
-- 
2.43.0


From c0aa4c03ad4828c7f80ff6889149a4f237f5db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:08 +0000
Subject: [PATCH 67/99] fix: characteristic polynomial checker read an entry of
 the empty matrix and rejected its polynomial

---
 fflas-ffpack/checkers/checker_charpoly.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/checkers/checker_charpoly.inl b/fflas-ffpack/checkers/checker_charpoly.inl
index cd77956..332086a 100644
--- a/fflas-ffpack/checkers/checker_charpoly.inl
+++ b/fflas-ffpack/checkers/checker_charpoly.inl
@@ -136,8 +136,8 @@ namespace FFPACK {
 
             // compute the determinant of A
             F.init(det);
-            F.assign(det, *Ac);
-            for (size_t i=1; i<n; ++i)
+            F.assign(det, F.one);
+            for (size_t i=0; i<n; ++i)
                 F.mulin(det,*(Ac+i*n+i));
             if (n%2 == 1) F.negin(det); // Ac is A -lambda I
 
-- 
2.43.0


From 5d87e01d2ac09dae054e587d0a71ac33d01f595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 68/99] fix: binary WriteMatrix ignored the leading dimension
 and the column major layout

---
 fflas-ffpack/utils/fflas_io.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index e879867..0d81c40 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -253,7 +253,9 @@ namespace FFLAS{
                              c<<std::endl;
                              c.write ( reinterpret_cast<char*> (&m), sizeof (size_t));
                              c.write ( reinterpret_cast<char*> (&n), sizeof (size_t));
-                             c.write ( reinterpret_cast<const char*> (A), sizeof(typename Field::Element)*m*n);
+                             for (size_t i = 0; i<m; ++i)
+                                 for (size_t j=0; j<n;++j)
+                                     c.write ( reinterpret_cast<const char*> (column_major ? A+j*lda+i : A+i*lda+j), sizeof(typename Field::Element));
                              break;
                          }
         default:{ // format == FflasMath
-- 
2.43.0


From d9f95c1de6f2dccf01b676f0749e91029475cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 69/99] fix: reading a matrix from a stream rewound it to its
 beginning, or closed it

---
 fflas-ffpack/utils/fflas_io.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index 0d81c40..dcceb6a 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -55,6 +55,7 @@ namespace FFLAS{
 
     inline void preamble(std::ifstream&ifs, FFLAS_FORMAT& format){
         char st[9] = {0};
+        std::streampos start = ifs.tellg();
         ifs.read(st, 8);
         if (!strcmp(st,"FFBinFmt")){
             format = FflasBinary;
@@ -62,7 +63,8 @@ namespace FFLAS{
             // No detection of non-binary formats for the moment
             format = FflasSMS;
         }
-        ifs.seekg(0, std::ios::beg);
+        ifs.clear();
+        ifs.seekg(start);
         return;
     }
 
@@ -134,7 +136,6 @@ namespace FFLAS{
                              m=mm,n=nn;
                              A = fflas_new(F, m,n);
                              ifs.read (reinterpret_cast<char *>(A), sizeof(typename Field::Element)*m*n);
-                             ifs.close();
                              break;
                          }
         default:
-- 
2.43.0


From 28c1de4fa26c2bbc54421bff4e24a2f308c58356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 70/99] fix: reading SMS files wrote out of the matrix on a
 zero column index and looped forever on truncated files

---
 fflas-ffpack/utils/fflas_io.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index dcceb6a..0174e32 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -113,13 +113,12 @@ namespace FFLAS{
                           A = fflas_new(F, m,n);
                           fzero(F,m,n,A,n);
                           do{
-                              ifs >> i >> j;
-                              if (i>m || j>n){
+                              if (!(ifs >> i >> j) || i>m || j>n || (i==0) != (j==0)){
                                   std::cerr<<"Matrix file does not respect the SMS format"<<std::endl;
                                   return NULL;
                               }
                               F.read (ifs, val);
-                              if (i>0 && i>0) F.assign (A [(i-1)*n+j-1], val);
+                              if (i>0 && j>0) F.assign (A [(i-1)*n+j-1], val);
                           } while (!(i==0 && j==0 && F.isZero(val)));
                           break;
                       }
-- 
2.43.0


From 94977692b75468e2c685559573f15f58157d0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 71/99] fix: WriteMatrix kept only six digits of floating point
 represented elements

---
 fflas-ffpack/utils/fflas_io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index 0174e32..0dd7925 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -185,6 +185,8 @@ namespace FFLAS{
     inline std::ostream& WriteMatrix (std::ostream& c, const Field& F, size_t m, size_t n,
                                       typename Field::ConstElement_ptr A, size_t lda,
                                       FFLAS_FORMAT format, bool column_major) {
+        // write all the digits of floating point represented elements
+        std::streamsize old_precision = c.precision (std::numeric_limits<double>::max_digits10);
         switch (format){
         case FflasSageMath:
             c << "Matrix (";
@@ -273,6 +275,7 @@ namespace FFLAS{
                     }
                 }
         }
+        c.precision (old_precision);
         return c ;
     }
 
-- 
2.43.0


From 25ea69b84f7285c566ecd280339cb64816f2f623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:06 +0000
Subject: [PATCH 72/99] fix: the C interface declared functions that its
 implementation did not define

---
 fflas-ffpack/interfaces/libs/ffpack.C   | 64 ++++++++++++-------------
 fflas-ffpack/interfaces/libs/ffpack_c.h |  8 ++--
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index b16de46..88b44e1 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -171,8 +171,8 @@ void cyclic_shift_col_modular_double(const double p, double * A, size_t m, size_
 
 void
 applyP_modular_double( const double p,
-                       const enum FFLAS::FFLAS_SIDE Side,
-                       const enum FFLAS::FFLAS_TRANSPOSE Trans,
+                       const enum FFLAS_C_SIDE Side,
+                       const enum FFLAS_C_TRANSPOSE Trans,
                        const size_t M, const size_t ibeg, const size_t iend,
                        double * A, const size_t lda, const size_t * P
                        , bool positive)
@@ -190,7 +190,7 @@ applyP_modular_double( const double p,
 
 void
 fgetrsin_modular_double (const double p,
-                         const enum FFLAS::FFLAS_SIDE Side,
+                         const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * A, const size_t lda,
                          const size_t *P, const size_t *Q,
@@ -209,8 +209,8 @@ fgetrsin_modular_double (const double p,
 
 
 double *
-fgetrsv_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+fgetrs_modular_double (const double p,
+                       const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t NRHS, const size_t R,
                         double * A, const size_t lda,
                         const size_t *P, const size_t *Q,
@@ -232,7 +232,7 @@ fgetrsv_modular_double (const double p,
 
 size_t
 fgesvin_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N,
                         double * A, const size_t lda,
                         double * B, const size_t ldb,
@@ -252,7 +252,7 @@ fgesvin_modular_double (const double p,
 
 size_t
 fgesv_modular_double (const double p,
-                      const enum FFLAS::FFLAS_SIDE Side,
+                      const enum FFLAS_C_SIDE Side,
                       const size_t M, const size_t N, const size_t NRHS,
                       double * A, const size_t lda,
                       double * X, const size_t ldx,
@@ -273,7 +273,7 @@ fgesv_modular_double (const double p,
 
 
 void
-ftrtri_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtri_modular_double (const double p, const enum FFLAS_C_UPLO Uplo, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda
                        , bool positive)
 {
@@ -301,15 +301,15 @@ void trinv_left_modular_double( const double p, const size_t N, const double * L
 }
 
 void
-ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE Side, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda, bool positive)
 {
     if (positive) {
         Modular<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)Side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     } else {
         ModularBalanced<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)Side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     }
 }
 
@@ -318,7 +318,7 @@ ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum
 /* PLUQ */
 
 size_t
-PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+PLUQ_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                      const size_t M, const size_t N,
                      double * A, const size_t lda,
                      size_t*P, size_t *Q
@@ -334,7 +334,7 @@ PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
 }
 
 size_t
-LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                          const size_t M, const size_t N,
                          double * A, const size_t lda,
                          size_t* P, size_t* Qt,
@@ -355,7 +355,7 @@ LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  con
 #if 0 /*  UTILE ?? */
 
 size_t
-LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_small_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -363,7 +363,7 @@ LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag
 
 
 size_t
-LUdivine_gauss_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+LUdivine_gauss_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -1014,7 +1014,7 @@ Solve_modular_double( const double p, const size_t M,
 
 
 void
-solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t R,
                         double * L, const size_t ldl,
                         const size_t * Q,
@@ -1033,7 +1033,7 @@ solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 
 
 void
-solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB2_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * L, const size_t ldl,
                          const size_t * Q,
@@ -1056,7 +1056,7 @@ solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 /*************/
 
 
-void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                            const size_t M, const size_t N,
                                            double * A, const size_t lda,
                                            double * X, const size_t incX
@@ -1073,7 +1073,7 @@ void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFL
 
 
 
-size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                       const size_t M, const size_t N,
                                       double * A, const size_t lda,
                                       double ** NS, size_t* ldn,
@@ -1223,8 +1223,8 @@ size_t ColRankProfileSubmatrix_modular_double (const double p, const size_t M, c
 
 
 void
-getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                              const enum FFLAS::FFLAS_DIAG Diag,
+getTriangular_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                              const enum FFLAS_C_DIAG Diag,
                               const size_t M, const size_t N, const size_t R,
                               const double * A, const size_t lda,
                               double * T, const size_t ldt,
@@ -1243,8 +1243,8 @@ getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
 
 
 void
-getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                const enum FFLAS::FFLAS_DIAG Diag,
+getTriangularin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                const enum FFLAS_C_DIAG Diag,
                                 const size_t M, const size_t N, const size_t R,
                                 double * A, const size_t lda
                                 , bool positive)
@@ -1261,8 +1261,8 @@ getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Upl
 
 
 void
-getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                               const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                               const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N, const size_t R, const size_t* P,
                                const double * A, const size_t lda,
                                double * T, const size_t ldt,
@@ -1282,8 +1282,8 @@ getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo
 
 
 void
-getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                 const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                 const enum FFLAS_C_DIAG Diag,
                                  const size_t M, const size_t N, const size_t R, const size_t* P,
                                  double * A, const size_t lda,
                                  const enum FFPACK_C_LU_TAG LuTag
@@ -1300,8 +1300,8 @@ getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Up
 
 
 void
-getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                    const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                    const enum FFLAS_C_DIAG Diag,
                                     const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                     const double * A, const size_t lda,
                                     double * T, const size_t ldt,
@@ -1321,7 +1321,7 @@ getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO
 
 
 void
-getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                       const size_t M, const size_t N, const size_t R, const size_t* P,
                                       const double * A, const size_t lda,
                                       double * T, const size_t ldt,
@@ -1341,7 +1341,7 @@ getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UP
 
 
 void
-getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                         const size_t M, const size_t N, const size_t R, const size_t* P,
                                         double * A, const size_t lda,
                                         const enum FFPACK_C_LU_TAG LuTag
@@ -1359,7 +1359,7 @@ getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_
 
 
 void
-getReducedEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                            const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                            const double * A, const size_t lda,
                                            double * T, const size_t ldt,
diff --git a/fflas-ffpack/interfaces/libs/ffpack_c.h b/fflas-ffpack/interfaces/libs/ffpack_c.h
index 191e98a..140a161 100644
--- a/fflas-ffpack/interfaces/libs/ffpack_c.h
+++ b/fflas-ffpack/interfaces/libs/ffpack_c.h
@@ -217,7 +217,8 @@ extern "C" {
                           double * A, const size_t lda,
                           double * X, const size_t ldx,
                           const double * B, const size_t ldb,
-                          int * info);
+                          int * info
+                          , bool positive );
 
     /* ftrtr */
 
@@ -234,7 +235,7 @@ extern "C" {
 
 
     void
-    ftrtrm_modular_double (const double p, const enum FFLAS_C_DIAG diag, const size_t N,
+    ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG diag, const size_t N,
                            double * A, const size_t lda
                            , bool positive );
 
@@ -522,7 +523,8 @@ extern "C" {
                             const size_t M, const size_t N, const size_t R,
                             double * L, const size_t ldl,
                             const size_t * Q,
-                            double * B, const size_t ldb );
+                            double * B, const size_t ldb
+                            , bool positive );
 
 
     void
-- 
2.43.0


From f6e7c7f99269d1bde441efdb725bd37ece6c3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:13 +0000
Subject: [PATCH 73/99] fix: the parallel echelon forms of the C interface were
 not declared and mixed up transform with the number of threads

---
 fflas-ffpack/interfaces/libs/ffpack.C   | 24 +++----
 fflas-ffpack/interfaces/libs/ffpack_c.h | 85 +++++++++++++++++++++++++
 2 files changed, 97 insertions(+), 12 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index 88b44e1..257cab7 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -697,10 +697,10 @@ pReducedColumnEchelonForm_modular_float (const float p, const size_t M, const si
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -715,10 +715,10 @@ pReducedRowEchelonForm_modular_float (const float p, const size_t M, const size_
 {
     if (positive) {
         Modular<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<float> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -731,10 +731,10 @@ pColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -748,10 +748,10 @@ pRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -766,10 +766,10 @@ pReducedColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, cons
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedColumnEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
@@ -784,10 +784,10 @@ pReducedRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const s
 {
     if (positive) {
         Modular<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     } else {
         ModularBalanced<int32_t> F(p);
-        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,0,transform,(enum FFPACK::FFPACK_LU_TAG)LuTag);
+        return pReducedRowEchelonForm(F,M,N,A,lda,P,Qt,transform,0,(enum FFPACK::FFPACK_LU_TAG)LuTag);
     }
 }
 
diff --git a/fflas-ffpack/interfaces/libs/ffpack_c.h b/fflas-ffpack/interfaces/libs/ffpack_c.h
index 140a161..e024378 100644
--- a/fflas-ffpack/interfaces/libs/ffpack_c.h
+++ b/fflas-ffpack/interfaces/libs/ffpack_c.h
@@ -375,6 +375,91 @@ extern "C" {
                                            , bool positive );
 
 
+    size_t
+    pColumnEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                       double * A, const size_t lda,
+                                       size_t* P, size_t* Qt, const bool transform,
+                                       const enum FFPACK_C_LU_TAG LuTag
+                                       , bool positive );
+
+    size_t
+    pRowEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                    double * A, const size_t lda,
+                                    size_t* P, size_t* Qt, const bool transform,
+                                    const enum FFPACK_C_LU_TAG LuTag
+                                    , bool positive );
+
+    size_t
+    pReducedColumnEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                              double * A, const size_t lda,
+                                              size_t* P, size_t* Qt, const bool transform,
+                                              const enum FFPACK_C_LU_TAG LuTag
+                                              , bool positive );
+
+    size_t
+    pReducedRowEchelonForm_modular_double (const double p, const size_t M, const size_t N,
+                                           double * A, const size_t lda,
+                                           size_t* P, size_t* Qt, const bool transform,
+                                           const enum FFPACK_C_LU_TAG LuTag
+                                           , bool positive );
+
+    size_t
+    pColumnEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                      float * A, const size_t lda,
+                                      size_t* P, size_t* Qt, const bool transform,
+                                      const enum FFPACK_C_LU_TAG LuTag
+                                      , bool positive );
+
+    size_t
+    pRowEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                   float * A, const size_t lda,
+                                   size_t* P, size_t* Qt, const bool transform,
+                                   const enum FFPACK_C_LU_TAG LuTag
+                                   , bool positive );
+
+    size_t
+    pReducedColumnEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                             float * A, const size_t lda,
+                                             size_t* P, size_t* Qt, const bool transform,
+                                             const enum FFPACK_C_LU_TAG LuTag
+                                             , bool positive );
+
+    size_t
+    pReducedRowEchelonForm_modular_float (const float p, const size_t M, const size_t N,
+                                          float * A, const size_t lda,
+                                          size_t* P, size_t* Qt, const bool transform,
+                                          const enum FFPACK_C_LU_TAG LuTag
+                                          , bool positive );
+
+    size_t
+    pColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                        int32_t * A, const size_t lda,
+                                        size_t* P, size_t* Qt, const bool transform,
+                                        const enum FFPACK_C_LU_TAG LuTag
+                                        , bool positive );
+
+    size_t
+    pRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                     int32_t * A, const size_t lda,
+                                     size_t* P, size_t* Qt, const bool transform,
+                                     const enum FFPACK_C_LU_TAG LuTag
+                                     , bool positive );
+
+    size_t
+    pReducedColumnEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                               int32_t * A, const size_t lda,
+                                               size_t* P, size_t* Qt, const bool transform,
+                                               const enum FFPACK_C_LU_TAG LuTag
+                                               , bool positive );
+
+    size_t
+    pReducedRowEchelonForm_modular_int32_t (const int32_t p, const size_t M, const size_t N,
+                                            int32_t * A, const size_t lda,
+                                            size_t* P, size_t* Qt, const bool transform,
+                                            const enum FFPACK_C_LU_TAG LuTag
+                                            , bool positive );
+
+
     size_t
     ReducedRowEchelonForm2_modular_double (const double p, const size_t M, const size_t N,
                                            double * A, const size_t lda,
-- 
2.43.0


From 1c6c44ec9af267ca86ab3000584161945f88747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:32 +0000
Subject: [PATCH 74/99] fix: including the library in two files of a program
 gave duplicate definitions

---
 fflas-ffpack/utils/fflas_randommatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 968f304..99c87e7 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -494,7 +494,7 @@ namespace FFPACK{
 
     // O(1)
     // estimate what rank a submatrix is able to reach given the current configuration of the algorithm
-    size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
+    inline size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
         // Compute the valuation of a given leading submatrix ti
             return ti + std::min(i + 1 - nb_pivot_bf_i, nb_pivot_after_i_not_moved - Is_pivot_not_moved) +
                         std::min(n - (i + 1) - nb_pivot_after_i, nb_pivot_before_i_not_moved - Is_pivot_not_moved);
@@ -507,7 +507,7 @@ namespace FFPACK{
      * @param [out] rows
      * @param [out] cols
     */
-    void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
+    inline void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
 
         // if (r <= 0 || n <= 0 || t <= 0) {
         //     std::cout << "care, all the arguments must be positive" << std::endl;
-- 
2.43.0


From b84aa904dad8e916ed039232304b2ec20a54e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 75/99] fix: NonZeroRandomMatrix without a generator could not
 be called

---
 fflas-ffpack/utils/fflas_randommatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 99c87e7..0f955f1 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -72,7 +72,7 @@ namespace FFPACK {
      * @param lda leading dimension of \p A
      * @return \c A.
      */
-    template<class Field, class RandIter>
+    template<class Field>
     inline typename Field::Element_ptr
     NonZeroRandomMatrix(const Field & F, size_t m, size_t n,
                         typename Field::Element_ptr A, size_t lda) {
-- 
2.43.0


From 000d9d6d3fbea16baf8df14a0c34f010e0ccf8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 76/99] fix: RandomTriangularMatrix wrote outside lower
 triangular matrices with more rows than columns

---
 fflas-ffpack/utils/fflas_randommatrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 0f955f1..f967916 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -140,9 +140,10 @@ namespace FFPACK {
             }
         } else { // FflasLower
             for (size_t i=0 ; i<m ; ++i){
-                for (size_t j=0; j<=i ;++j)
+                size_t len = std::min(i+1,n); // number of entries in the lower part of row i
+                for (size_t j=0; j<len ;++j)
                     G.random (A[i*lda+j]);
-                FFLAS::fzero (F, n-1-std::min(i,n-1), A + i*lda + i+1, 1);
+                FFLAS::fzero (F, n-len, A + i*lda + len, 1);
             }
         }
         if (Diag == FFLAS::FflasUnit){
-- 
2.43.0


From acbf69fe88ca57f99caa8cc1e69d460544183db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 77/99] fix: RandomMatrixWithRank ignored the requested rank

---
 fflas-ffpack/utils/fflas_randommatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index f967916..5f55b28 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -251,6 +251,7 @@ namespace FFPACK{
         RandomTriangularMatrix (F, m, m, FFLAS::FflasLower, FFLAS::FflasNonUnit, true, L, m, G);
         /*  Create U, upper or rank r */
         RandomTriangularMatrix (F, m, n, FFLAS::FflasUpper, FFLAS::FflasNonUnit, true, U, n, G);
+        FFLAS::fzero (F, m-r, n, U+r*n, n);
 
         /*  Create a random P,Q */
         for (size_t i = 0 ; i < n ; ++i)
-- 
2.43.0


From 4906a44f881da1962b46d5eedd313d545359ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 78/99] fix: RandomSymmetricMatrix was not symmetric when a
 diagonal element of its factor was zero

---
 fflas-ffpack/utils/fflas_randommatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 5f55b28..cd21958 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -209,7 +209,8 @@ namespace FFPACK {
                 F.init(inv);
                 F.inv(inv, A[i*(lda+1)]);
                 FFLAS::fscal(F, n-i-1, inv, A+i*(lda+1)+1, 1, A+i*(lda+1)+lda, lda);
-            }
+            } else // U = D x L^T has a zero row for each zero in D
+                FFLAS::fzero(F, n-i-1, A+i*(lda+1)+1, 1);
         }
         ftrtrm (F, FFLAS::FflasRight, FFLAS::FflasNonUnit, n, A, lda);
         return A;
-- 
2.43.0


From bb900bc78a0b63cc5d4b0ef05e05470cbe1f327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 79/99] fix: RandomSymmetricRankProfileMatrix could loop
 forever on the last pivot

---
 fflas-ffpack/utils/fflas_randommatrix.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index cd21958..c6eec50 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -357,13 +357,17 @@ namespace FFPACK{
         for (size_t i=0; i<N; ++i)
             rr[i] = cc[i] = i;
         for (size_t k=0; k<R; k+=2){
-            size_t i = RandInt(k,N);
-            size_t j = RandInt(k,N);
-            cols[k] = cc[j];
-            cc[j] = cc[k];
-            rows[k] = rr[i];
-            rr[i] = rr[k];
-            if (rows[k] != cols[k] && k < R-1){
+            bool diagonal = true;
+            if (k < R-1){
+                size_t i = RandInt(k,N);
+                size_t j = RandInt(k,N);
+                cols[k] = cc[j];
+                cc[j] = cc[k];
+                rows[k] = rr[i];
+                rr[i] = rr[k];
+                diagonal = (rows[k] == cols[k]);
+            }
+            if (!diagonal){
                 // adding the symmetric element
                 rows[k+1] = cols[k];
                 cols[k+1] = rows[k];
-- 
2.43.0


From 201953142efd2d525260ded8dbe95918b9cb39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:06 +0000
Subject: [PATCH 80/99] fix: RandomLTQSRankProfileMatrix missed the requested
 order after undoing a move

---
 fflas-ffpack/utils/fflas_randommatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index c6eec50..ce746f0 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -694,14 +694,14 @@ namespace FFPACK{
                 // O(n)
                 for (size_t k = 0; k<n-1; k++){
                     if (k <= prev_i) {
-                        nb_pivot_after_index_not_moved[k]--;
+                        nb_pivot_after_index_not_moved[k]++;
                     }
                     if (k >= prev_i) {
-                        nb_pivot_before_index_not_moved[k]--;
+                        nb_pivot_before_index_not_moved[k]++;
                     }
                 }
 
-                H[prev_i] = 0;
+                H[prev_i] = 1;
 
                 ++loop;
                 if (prev_h != h) {
-- 
2.43.0


From 7956fd1711718187c777de1ad18210650bb9a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 81/99] fix: Bruhat generators mixed up the leading dimensions
 of their matrices

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index 3d6f924..f575a76 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -117,7 +117,7 @@ inline void getLTBruhatGen(const Field& Fi, const FFLAS::FFLAS_UPLO Uplo,const F
                            typename Field::ConstElement_ptr A, const size_t lda,
                            typename Field::Element_ptr T, const size_t ldt)
 
-{   FFLAS::fzero(Fi, N, N, T, N);
+{   FFLAS::fzero(Fi, N, N, T, ldt);
     if (Uplo==FFLAS::FflasUpper) {     //U
         if(diag==FFLAS::FflasNonUnit){
             for(size_t i=0; i<r;i++){
@@ -225,7 +225,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
    Bruhat2EchelonPermutation (N,r,outer,inner,M);
     size_t * MLap = FFLAS::fflas_new<size_t>(N);
     MathPerm2LAPACKPerm(MLap, M, N);
-    applyP (Fi, Side, Trans, N, size_t(0), N, C, lda, MLap);
+    applyP (Fi, Side, Trans, N, size_t(0), N, C, ldc, MLap);
     size_t * pivot_outer_pos = FFLAS::fflas_new<size_t>(r);
   size_t * last_coeff = FFLAS::fflas_new<size_t>(r);
   for (size_t i=0;i<r;i++)
-- 
2.43.0


From 86c6e52f8135c33cd812ca8c3bf9ed876bfd84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:23 +0000
Subject: [PATCH 82/99] fix: productSSSxTS read out of its generators when the
 matrix has a single partial block

---
 fflas-ffpack/ffpack/ffpack_sss.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_sss.inl b/fflas-ffpack/ffpack/ffpack_sss.inl
index 09536ba..b1cbc22 100644
--- a/fflas-ffpack/ffpack/ffpack_sss.inl
+++ b/fflas-ffpack/ffpack/ffpack_sss.inl
@@ -152,7 +152,7 @@ namespace FFPACK{
                 /* Copy, but the other way: partial blocks are taken care of first*/
         
                 /* Temp1 <- alpha * V_lastv * B_lastb */
-                if (kf > 1 || rs){
+                if (k > 1){
                     fgemm (Fi, FFLAS::FflasNoTrans, FFLAS::FflasNoTrans, s, t, ls, alpha,
                            V + (k - 2) * s * ldv, ldv, B + (k - 1) * s * ldb, ldb, Fi.zero, Temp1, t);
                 }
-- 
2.43.0


From c58c0a00d09d460525f1c0c4acf7aca7d3f093d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:23 +0000
Subject: [PATCH 83/99] fix: the Bruhat generator routines leaked their
 temporary arrays

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index f575a76..b91a6a8 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -203,7 +203,6 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
   FFLAS::FFLAS_TRANSPOSE Trans;
   const size_t * outer;
   const size_t * inner;
-  size_t * Inv = FFLAS::fflas_new<size_t>(N);
   if(Uplo==FFLAS::FflasUpper){
     S = X + s*ldx;
     outer = Q;
@@ -219,9 +218,6 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
     Trans = FFLAS::FflasNoTrans;
   }
 
-   for (size_t i=0; i<r; i++){
-         Inv [inner [i]] = i;
-      }
    Bruhat2EchelonPermutation (N,r,outer,inner,M);
     size_t * MLap = FFLAS::fflas_new<size_t>(N);
     MathPerm2LAPACKPerm(MLap, M, N);
@@ -297,7 +293,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
     }
  
   FFLAS::fflas_delete(C);
-  FFLAS::fflas_delete(last_coeff);
+  FFLAS::fflas_delete(MLap, pivot_outer_pos, last_coeff);
   return(NbBlocks);
 
 }
@@ -360,7 +356,7 @@ if (Uplo==FFLAS::FflasUpper)//U
  else{
   applyP (Fi, FFLAS::FflasRight, FFLAS::FflasTrans, N, size_t(0), N, A, lda, MLap);
  }
-
+     FFLAS::fflas_delete(MLap);
 }
  // Compute the permutation M (in MathPermutation format) such that LM^T is in column echelon form, where L is the
  // left factor of a Bruhat decomposition
@@ -797,6 +793,7 @@ inline  void productBruhatxTS (const Field& Fi, size_t N, size_t s, size_t r, si
 
         FFLAS::fflas_delete (CRE);
     }
+    FFLAS::fflas_delete (Tuinv, Tlinv, R);
 }
 } //namespace FFPACK
 #endif //_FFPACK_ffpack_bruhatgen_inl
-- 
2.43.0


From 0aaff5fd7993d9d83c43b9dc22dfeade0ca9164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:21 +0000
Subject: [PATCH 84/99] fix: the variables declared inside SYNCH_GROUP died
 before its tasks were waited for

The OpenMP taskwait was placed after the block, so a task still running
(e.g. in the parallel hybrid ftrsm) used a helper whose lifetime had ended.
---
 fflas-ffpack/paladin/parallel.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/parallel.h b/fflas-ffpack/paladin/parallel.h
index 5f9ae70..fbd0706 100644
--- a/fflas-ffpack/paladin/parallel.h
+++ b/fflas-ffpack/paladin/parallel.h
@@ -180,8 +180,7 @@ PRAGMA_OMP_IMPL(omp task M)           \
 {I;}
 
 
-#define SYNCH_GROUP(Args...)     {{Args};}\
-WAIT;
+#define SYNCH_GROUP(Args...)     {Args; WAIT;}
 
 
 // macro omp taskwait (waits for all childs of current task)
-- 
2.43.0


From 289f8e12858f1124707b16320156d7216ed77b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:16 +0000
Subject: [PATCH 85/99] fix: fgemv over ZRing<int64_t> without SIMD squared Y
 instead of scaling it by beta

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 35b0f02..ba83a02 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -386,7 +386,7 @@ namespace FFLAS{
             int64_t* Yi=Y;
 
             for (size_t i=0;i<M;i++, Yi+=incY){
-                *Yi *= beta * *Yi;
+                *Yi *= beta;
                 const int64_t* Xj=X;
                 for (size_t j=0; j < N; j++, Xj += incX)
                     *Yi += alpha*A[i*lda+j] * *Xj;
@@ -395,7 +395,7 @@ namespace FFLAS{
             int64_t* Yi=Y;
 
             for (size_t i=0;i<N;i++, Yi+=incY){
-                *Yi *= beta * *Yi;
+                *Yi *= beta;
                 const int64_t* Xj=X;
                 for (size_t j=0; j < M; j++, Xj += incX)
                     *Yi += alpha*A[i+j*lda] * *Xj;
-- 
2.43.0


From 0673d4050435be57508286f3d24755603b3e265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:03 +0000
Subject: [PATCH 86/99] fix: generic fgemv divided beta by alpha, which is not
 exact over a ring such as ZRing<int32_t>

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index ba83a02..d32cbfd 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -203,19 +203,15 @@ namespace FFLAS{
 
         if (F.isZero (beta))
             fzero (F, Ydim, Y, incY);
-        else {
-            typename Field::Element betadivalpha;
-            FFLASFFPACK_check(!F.isZero(alpha));
-            F.div (betadivalpha, beta, alpha);
-            fscalin (F, Ydim, betadivalpha, Y, incY);
-        }
+        else
+            fscalin (F, Ydim, beta, Y, incY);
+        // no division by alpha: F may be a ring
         if (ta == FflasNoTrans)
             for (size_t i = 0; i < Ydim; ++i)
-                F.addin (Y[i*incY], fdot(F, N, A+i*lda, 1, X, incX));
+                F.axpyin (Y[i*incY], alpha, fdot(F, N, A+i*lda, 1, X, incX));
         else
             for (size_t i = 0; i < Ydim; ++i)
-                F.addin (Y[i*incY], fdot(F, M, A+i, lda, X, incX));
-        fscalin (F, Ydim, alpha, Y, incY);
+                F.axpyin (Y[i*incY], alpha, fdot(F, M, A+i, lda, X, incX));
 
         return Y;
     }
-- 
2.43.0


From 57b5aecb895b07e2a33ede857ca00c3920f0bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 87/99] fix: parallel fgemm with ThreeDAdaptive swapped m and n
 when adding the two halves of a product split along k

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 224bf34..3615195 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -149,7 +149,7 @@ namespace FFLAS
                         TASK(MODE(CONSTREFERENCE(F,H2) READ(A2,B2) READWRITE(C2)), pfgemm(F, ta, tb, m, n, k-K2, a, A2, lda, B2, ldb, F.zero, C2, n, H2));
                         CHECK_DEPENDENCIES;
 
-                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, n, m, C2, n, C, ldc));
+                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, m, n, C2, n, C, ldc));
 
                        );
             fflas_delete(C2);
-- 
2.43.0


From c43ff4e67452812e1de4e00df9d8597a1d468634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:38 +0000
Subject: [PATCH 88/99] verif hook: with FFLASFFPACK_VERIF defined, the
 thresholds of parallel fgemm and ftrsm are set by the build

---
 fflas-ffpack/fflas/fflas_pfgemm.inl | 4 ++++
 fflas-ffpack/fflas/fflas_pftrsm.inl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_pfgemm.inl b/fflas-ffpack/fflas/fflas_pfgemm.inl
index f34d204..8816ded 100644
--- a/fflas-ffpack/fflas/fflas_pfgemm.inl
+++ b/fflas-ffpack/fflas/fflas_pfgemm.inl
@@ -27,7 +27,11 @@
 #ifndef __FFLASFFPACK_fflas_pfgemm_INL
 #define __FFLASFFPACK_fflas_pfgemm_INL
 
+#ifdef FFLASFFPACK_VERIF
+#define __FFLASFFPACK_SEQPARTHRESHOLD FFLASFFPACK_VERIF_SEQPARTHRESHOLD
+#else
 #define __FFLASFFPACK_SEQPARTHRESHOLD 220
+#endif
 #define __FFLASFFPACK_DIMKPENALTY 1
 
 #ifdef __FFLASFFPACK_USE_KAAPI
diff --git a/fflas-ffpack/fflas/fflas_pftrsm.inl b/fflas-ffpack/fflas/fflas_pftrsm.inl
index de3c715..5ddcf92 100644
--- a/fflas-ffpack/fflas/fflas_pftrsm.inl
+++ b/fflas-ffpack/fflas/fflas_pftrsm.inl
@@ -28,7 +28,11 @@
 #ifndef __FFLASFFPACK_fflas_pftrsm_INL
 #define __FFLASFFPACK_fflas_pftrsm_INL
 
+#ifdef FFLASFFPACK_VERIF
+#define PTRSM_HYBRID_THRESHOLD FFLASFFPACK_VERIF_PTRSM_THRESHOLD
+#else
 #define PTRSM_HYBRID_THRESHOLD 256
+#endif
 
 #include "fflas-ffpack/paladin/parallel.h"
 
-- 
2.43.0


From 59be1f0f50b7d84325400eaf98d77c10cff8f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 89/99] fix: the block tasks of parallel fgemm shared one
 helper, which each of them updates: a data race

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 3615195..778634e 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -45,7 +45,8 @@ namespace FFLAS
         {
             H.parseq.set_numthreads( std::min(H.parseq.numthreads(), std::max((size_t)1,(size_t)(m*n/(__FFLASFFPACK_SEQPARTHRESHOLD*__FFLASFFPACK_SEQPARTHRESHOLD)))) );
 
-            MMHelper<Field, AlgoT, FieldTrait, ParSeqHelper::Sequential> SeqH (H);
+            typedef MMHelper<Field, AlgoT, FieldTrait, ParSeqHelper::Sequential> SeqMMH_t;
+            SeqMMH_t SeqH (H);
             size_t sa = (ta==FFLAS::FflasNoTrans)?lda:1;
             size_t sb = (tb==FFLAS::FflasNoTrans)?1:ldb;
             SYNCH_GROUP({FORBLOCK2D(iter,m,n,H.parseq,
@@ -53,7 +54,8 @@ namespace FFLAS
                                                READ(A[iter.ibegin()*sa],B[iter.jbegin()*sb])
                                                CONSTREFERENCE(F, SeqH)
                                                READWRITE(C[iter.ibegin()*ldc+iter.jbegin()])),
-                                          fgemm( F, ta, tb, iter.iend()-iter.ibegin(), iter.jend()-iter.jbegin(), k, alpha, A+iter.ibegin()*sa, lda, B+iter.jbegin()*sb, ldb, beta, C+iter.ibegin()*ldc+iter.jbegin(), ldc, SeqH););
+                                          {SeqMMH_t BlockH (SeqH); // fgemm updates its helper: one for each task
+                                          fgemm( F, ta, tb, iter.iend()-iter.ibegin(), iter.jend()-iter.jbegin(), k, alpha, A+iter.ibegin()*sa, lda, B+iter.jbegin()*sb, ldb, beta, C+iter.ibegin()*ldc+iter.jbegin(), ldc, BlockH);});
                                    );
                         });
         }
-- 
2.43.0


From 7eb1c2d0ac27d41f74b45bc85c9273bbf491161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 90/99] fix: charpoly with FfpackKG left the transformation
 matrix U uninitialised

---
 fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
index 6439a66..651c4cd 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
@@ -136,7 +136,7 @@ namespace FFPACK {
             for ( i=0, Ui=U, Vi=V, Bi=B; i<N; ++i, Ai -= N*lda-1  ){
                 for ( Xj=Xi, Uj=Ui; Xj<Xi+N; ++Xj, ++Uj){
                     F.assign(*Xj, F.zero);
-                    F.assign(*Ui, F.zero);
+                    F.assign(*Uj, F.zero);
                 }
                 F.assign(*(Ui+i), F.one);
                 F.assign(*(Xi+i), F.one);
-- 
2.43.0


From 712074dd06d0c86cd3730a1897333c5e05bab0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 91/99] fix: Keller-Gehrig fast product subtracted where its
 bound needs a sum, and wrote past its vector

---
 fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
index 3e80e42..bbddcfe 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
@@ -184,7 +184,7 @@ namespace FFPACK {
                    const size_t kg_mc, const size_t kg_mb, const size_t kg_j )
         {
 
-            size_t big_truc =kg_mb-kg_mc*(kg_j+1) ;
+            size_t big_truc =kg_mb+kg_mc*(kg_j+1) ;
             size_t lambda = (N<big_truc)?(0):(N-big_truc);
             // Y1 <- X2
             FFLAS::fassign ( F, lambda, X+(kg_mb+kg_mc)*incX, incX, Y, incY );
-- 
2.43.0


From e4ef7125d5cae1b70e4ccd45961451ee0e222066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:46 +0000
Subject: [PATCH 92/99] fix: fgemm, fgemv and fsyrk with beta=0 sized all their
 blocks for an empty accumulator and lost exactness for some moduli

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl | 7 +++++++
 fflas-ffpack/fflas/fflas_fgemv.inl                 | 7 +++++++
 fflas-ffpack/fflas/fflas_fsyrk.inl                 | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
index db1d792..90bd549 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
@@ -99,6 +99,13 @@ namespace FFLAS {
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < k){
+            // All blocks but the first one are accumulated to the reduced output
+            HelperType Hacc(H);
+            Hacc.initC();
+            kmax = std::min (kmax, Hacc.MaxDelayedDim (H.delayedField.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index d32cbfd..67686b7 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -269,6 +269,13 @@ namespace FFLAS{
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < Xdim){
+            // All blocks but the first one are accumulated to the reduced output
+            HelperType Hacc(H);
+            Hacc.initC();
+            kmax = std::min (kmax, Hacc.MaxDelayedDim (H.delayedField.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index 96b728e..2ab5c58 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -326,6 +326,13 @@ namespace FFLAS {
             kmax = H.MaxDelayedDim (betadf);
         }
 
+        if (kmax < K){
+            // All blocks but the first one are accumulated to the reduced output
+            HelperType Hacc(H);
+            Hacc.initC();
+            kmax = std::min (kmax, Hacc.MaxDelayedDim (H.delayedField.one));
+        }
+
         if (!kmax){
             MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DefaultTag> HG(H);
             H.initOut();
-- 
2.43.0


From 247a4134f9b3c9d4fe7deab3fda6be72144278ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:27 +0000
Subject: [PATCH 93/99] fix: fsytrf_RPM scaled the rows beyond the rank by
 uninitialised values

---
 fflas-ffpack/ffpack/ffpack_fsytrf.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_fsytrf.inl b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
index 2c55303..e45fd32 100644
--- a/fflas-ffpack/ffpack/ffpack_fsytrf.inl
+++ b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
@@ -736,7 +736,7 @@ namespace FFPACK {
         // FFLAS::WriteMatrix(std::cerr<<"After fsytrf_nonunit A = "<<std::endl,F,N,N,A, lda);
         // FFLAS::WriteMatrix(std::cerr<<"After fsytrf_nonunit Dinv = "<<std::endl,F,1,N,Dinv, 1);
         size_t incA = (UpLo==FFLAS::FflasUpper) ? 1 : lda;
-        for (size_t i=0; i<N; i++)
+        for (size_t i=0; i<rank; i++)
             FFLAS::fscalin (F, N-i-1, Dinv[i], A+i*(lda+1)+incA, incA);
         FFLAS::fflas_delete(Dinv);
         return rank;
-- 
2.43.0


From 2de44770be43f67d02ffe068aa0038173e334887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:50 +0000
Subject: [PATCH 94/99] fix: the hybrid characteristic polynomial took matrices
 with a single nonzero last entry for zero

The zero test of LUKrylov_KGFast scanned N*N consecutive entries regardless of the leading dimension, and its exit condition held when only the last entry was nonzero (and never for the zero matrix): CharPoly returned X^n. The minimal polynomial was also leaked.
---
 fflas-ffpack/ffpack/ffpack_charpoly.inl | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly.inl b/fflas-ffpack/ffpack/ffpack_charpoly.inl
index a821028..a9938f2 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly.inl
@@ -269,28 +269,25 @@ namespace FFPACK {
             if (!KGFast (F, charp, N, A, lda, &kg_mc, &kg_mb, &kg_j))
                 return charp;
             else{// Matrix A is not generic
-                Polynomial *minP = new Polynomial();
+                Polynomial minP;
                 typename Field::ConstElement_ptr Ai;
                 typename Field::Element_ptr A2i, Xi;
                 size_t *P = FFLAS::fflas_new<size_t>(N);
 
-                FFPACK::Protected::Hybrid_KGF_LUK_MinPoly (F, *minP, N, A, lda, X, ldx, P, FfpackKGF, kg_mc, kg_mb, kg_j);
-                size_t k = minP->size()-1; // degre of minpoly
-                if ((k==1) && F.isZero ((*minP)[0])){ // minpoly is X
-                    Ai = A;
-                    int j = int(N*N);
-                    while (j-- && F.isZero(*(Ai++))) ;
-                    if (!j){ // A is 0, CharPoly=X^n
-                        minP->resize((size_t)N+1);
-                        (*minP)[1] = F.zero;
-                        (*minP)[N] = F.one;
+                FFPACK::Protected::Hybrid_KGF_LUK_MinPoly (F, minP, N, A, lda, X, ldx, P, FfpackKGF, kg_mc, kg_mb, kg_j);
+                size_t k = minP.size()-1; // degre of minpoly
+                if ((k==1) && F.isZero (minP[0])){ // minpoly is X
+                    if (FFLAS::fiszero (F, N, N, A, lda)){ // A is 0, CharPoly=X^n
+                        minP.resize((size_t)N+1);
+                        minP[1] = F.zero;
+                        minP[N] = F.one;
                         k=N;
                     }
                 }
 
                 if (k==N){
                     charp.clear();
-                    charp.push_front(*minP); // CharPoly = MinPoly
+                    charp.push_front(minP); // CharPoly = MinPoly
                     FFLAS::fflas_delete( P);
                     return charp;
                 }
@@ -374,7 +371,7 @@ namespace FFPACK {
 
                 // Recursive call on X22
                 LUKrylov_KGFast (F, charp, Nrest, A2, Nrest, X22, ldx);
-                charp.push_front (*minP);
+                charp.push_front (minP);
                 FFLAS::fflas_delete( P);
                 FFLAS::fflas_delete (A2);
                 return charp;
-- 
2.43.0


From 4c90b3742066d68b360ca81a6656471883b98946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:50 +0000
Subject: [PATCH 95/99] fix: the Keller-Gehrig characteristic polynomials
 leaked their result

---
 fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl         | 10 +++++-----
 .../ffpack/ffpack_charpoly_kgfastgeneralized.inl       | 10 +++++-----
 fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl           |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
index bbddcfe..6ccbce9 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfast.inl
@@ -163,15 +163,15 @@ namespace FFPACK {
                 mb -= mc;
             }
 
-            Polynomial *minP = new Polynomial();
-            minP->resize(N+1);
-            minP->operator[](N) = F.one;
-            typename Polynomial::iterator it = minP->begin();
+            Polynomial minP;
+            minP.resize(N+1);
+            minP[N] = F.one;
+            typename Polynomial::iterator it = minP.begin();
             for (size_t j=0; j<N; ++j, it++){
                 F.neg(*it, *(A+N-1+j*lda));
             }
             charp.clear();
-            charp.push_front(*minP);
+            charp.push_front(minP);
             return 0;
         }
 
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
index 25fd927..8a59941 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kgfastgeneralized.inl
@@ -623,15 +623,15 @@ namespace FFPACK {
 
             if (exit_value)
                 exit(exit_value);
-            Polynomial *minP = new Polynomial();
-            minP->resize(N+1);
-            minP->operator[](N) = F.one;
-            typename Polynomial::iterator it = minP->begin();
+            Polynomial minP;
+            minP.resize(N+1);
+            minP[N] = F.one;
+            typename Polynomial::iterator it = minP.begin();
             for (size_t j=0; j<N; ++j, it++){
                 F.neg(*it, *(A+N-1+j*lda));
             }
             charp.clear();
-            charp.push_front(*minP);
+            charp.push_front(minP);
             return charp;
         }
     } // Protected
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
index 651c4cd..763c746 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_kglu.inl
@@ -261,12 +261,12 @@ namespace FFPACK {
             k = Protected::updateD( F, d, k, m);
             // Constructing the CharPoly
             for ( i=0; i<k; ++i){
-                Polynomial * minP = new Polynomial(d[i]+1);
-                minP->operator[](d[i]) = F.one;
-                it = minP->begin();
+                Polynomial minP(d[i]+1);
+                minP[d[i]] = F.one;
+                it = minP.begin();
                 for ( j=0; j<d[i]; ++j, it++)
                     F.neg(*it, m[i][j]);
-                charp.push_back( *minP );
+                charp.push_back( minP );
             }
             FFLAS::fflas_delete (X);
             FFLAS::fflas_delete( d);
-- 
2.43.0


From 2da70abe59084e3b5e4f806c76c563ebfcd4187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:28 +0000
Subject: [PATCH 96/99] fix: list arguments of the command line were read in
 reverse order

---
 fflas-ffpack/utils/args-parser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/args-parser.h b/fflas-ffpack/utils/args-parser.h
index 32f2739..742e950 100644
--- a/fflas-ffpack/utils/args-parser.h
+++ b/fflas-ffpack/utils/args-parser.h
@@ -193,7 +193,7 @@ inline int getListArgs(std::list<int> & outlist, std::string & instring)
                 return(1);
             }
             int j = atoi(instring.substr((size_t)start,(size_t)count).c_str());
-            outlist.push_front(j);
+            outlist.push_back(j);
             count =  0 ;
             start = int(i+1) ;
         }
@@ -216,7 +216,7 @@ inline int getListArgs(std::list<int> & outlist, std::string & instring)
     }
 
     int j = atoi(instring.substr((size_t)start,(size_t)count).c_str());
-    outlist.push_front(j);
+    outlist.push_back(j);
 
     return 0 ;
 }
-- 
2.43.0


From 31437c520a2f095f54a427b273241f12d1764ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:28 +0000
Subject: [PATCH 97/99] fix: unsigned 64-bit command-line arguments above
 2^63-1 were saturated

---
 fflas-ffpack/utils/args-parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/args-parser.h b/fflas-ffpack/utils/args-parser.h
index 742e950..13274f4 100644
--- a/fflas-ffpack/utils/args-parser.h
+++ b/fflas-ffpack/utils/args-parser.h
@@ -284,7 +284,7 @@ namespace FFLAS {
 
                     case TYPE_UINT64:
                         {
-                            *(uint64_t *) current->data = atol (getArgumentValue(argc, argv, i));
+                            *(uint64_t *) current->data = strtoull (getArgumentValue(argc, argv, i), NULL, 10);
                             ++i;
                         }
                         break;
-- 
2.43.0


From a4927f803e7e8198c5f7a4f966e0f8abc2ae1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:28 +0000
Subject: [PATCH 98/99] fix: in_range accepted any non negative signed value
 for an unsigned type

---
 fflas-ffpack/utils/flimits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/flimits.h b/fflas-ffpack/utils/flimits.h
index 527062a..4786285 100644
--- a/fflas-ffpack/utils/flimits.h
+++ b/fflas-ffpack/utils/flimits.h
@@ -183,7 +183,7 @@ template<class T, class E>
 typename std::enable_if<!(std::is_signed<T>::value) && (std::is_signed<E>::value), bool>::type
 in_range(E e)
 {
-    return ((e >= 0) && (static_cast<T>(e) <= limits<T>::max()));
+    return ((e >= 0) && (e <= limits<T>::max()));
 }
 
 
-- 
2.43.0


From 6234897ea6d8b3f95ea210e16097bc0117848b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:28 +0000
Subject: [PATCH 99/99] fix: allocating without an alignment requirement
 returned a null pointer

---
 fflas-ffpack/utils/align-allocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/align-allocator.h b/fflas-ffpack/utils/align-allocator.h
index d02e576..f70a899 100644
--- a/fflas-ffpack/utils/align-allocator.h
+++ b/fflas-ffpack/utils/align-allocator.h
@@ -71,7 +71,9 @@ T* malloc_align(size_t size, Alignment alignment = Alignment::DEFAULT) noexcept
 {
     void* p = nullptr;
     int err = 0;
-    err = posix_memalign(&p, (size_t) alignment, size*sizeof(T));
+    // posix_memalign only accepts multiples of sizeof(void*)
+    const Alignment align = (alignment == Alignment::NONE) ? Alignment::Normal : alignment;
+    err = posix_memalign(&p, (size_t) align, size*sizeof(T));
     if(err)
         std::cout << "posix_memalign error" << std::endl;
     //return new(p) T[size];
-- 
2.43.0

