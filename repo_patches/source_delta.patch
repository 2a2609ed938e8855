From d42c16c39168ebfcef761c7db38cb89529732c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:56 +0000
Subject: [PATCH 01/54] fix: add_LeftShift left an unnormalized result when b
 is zero

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index cebac40..7f890e6 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -446,6 +446,12 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
  * `a` but not `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
+   if (IsZero(b))
+   {
+      c = a;
+      return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 203c2dfdb5a39fcea2ba7edbce321c74d8147ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:57 +0000
Subject: [PATCH 02/54] fix: conv(Vec<Mat<zz_p>>, Mat<zz_pX>) read past the end
 of entries of low degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index dbf67d7..631cde8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -571,7 +571,7 @@ void conv(Vec<Mat<zz_p>> & matp, const Mat<zz_pX> & pmat)
         for (long i = 0; i < m; ++i)
             for (long j = 0; j < n; ++j)
                 for (long kk = 0; kk < k_bound; ++kk)
-                    matp[k+kk][i][j] = pmat[i][j][k+kk];
+                    matp[k+kk][i][j] = coeff(pmat[i][j], k+kk);
     }
 }
 
-- 
2.43.0


From 3e12569970e8ba062c7f27289576f53aabb4e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:57 +0000
Subject: [PATCH 03/54] fix: truncRow/truncCol did not copy the other
 rows/columns into a distinct output

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index 631cde8..eb3e827 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -255,14 +255,16 @@ void trunc(Mat<zz_pX>& x, const Mat<zz_pX>& a, long n)
 
 void truncRow(Mat<zz_pX>& x, const Mat<zz_pX>& a, long r, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long c = 0; c < x.NumCols(); ++c)
         trunc(x[r][c], a[r][c], n);
 }
 
 void truncCol(Mat<zz_pX>& x, const Mat<zz_pX>& a, long c, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long r = 0; r < x.NumRows(); ++r)
         trunc(x[r][c], a[r][c], n);
 }
-- 
2.43.0


From ad4f000556877dcade74c29808998525e56c7f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:57 +0000
Subject: [PATCH 04/54] fix: mirror indexed its vector one past the end

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index eb3e827..46ba356 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -232,7 +232,7 @@ void mirror(Vec<zz_pX>& mvec, const Vec<zz_pX>& pvec)
     if (&mvec != &pvec)
         mvec = pvec;
 
-    std::reverse(&mvec[0], &mvec[n]);
+    std::reverse(mvec.begin(), mvec.end());
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From be8c57f755f62cac9feb359213a03374131a0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:57 +0000
Subject: [PATCH 05/54] fix: is_col_popov read past the last column of matrices
 with more rows than columns

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
index 3fe0a74..07c4519 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
@@ -818,7 +818,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
@@ -856,7 +856,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat, const VecLong & shift)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
-- 
2.43.0


From c56bc226cc16cb9471425cf847b8f3910e2f791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:12 +0000
Subject: [PATCH 06/54] fix: multiply_evaluate_FFT_matmul3 wrote through a null
 buffer when the inner dimension is 1

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index c60bd67..b61a01a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -523,6 +523,7 @@ void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
             {
                 R.tbl[0].swap(RR[kk]);
                 FromfftRep(c[i][k+kk], R, 0, len_actual-1);
+                R.tbl[0].swap(RR[kk]);
             }
         }
 }
-- 
2.43.0


From ceaf43f12483923b32c3515c4acab252e50d41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:12 +0000
Subject: [PATCH 07/54] fix: row vector times polynomial matrix always failed
 by swapping a matrix row with a vector

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 1d9c46a..cb7e448 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -120,7 +120,7 @@ void multiply(Vec<zz_pX>& c, const Vec<zz_pX>& a, const Mat<zz_pX>& b, long is_p
     amat[0] = a;
     Mat<zz_pX> cmat;
     multiply(cmat, amat, b, is_prime);
-    c.swap(cmat[0]);
+    c = cmat[0];
 }
 
 
-- 
2.43.0


From 6e154ce8d437ad54b7ef329819426d470bc13a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:12 +0000
Subject: [PATCH 08/54] fix: vandermonde kept earlier contents of the first
 rows of its outputs

---
 .../src/mat_lzz_pX_multiply_evaluate_dense.cpp                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index a27cac5..30c6110 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -31,6 +31,10 @@ void vandermonde(Mat<zz_p>& vdm1, Mat<zz_p>& vdm2, Mat<zz_p>& inv_vdm, long d1,
     vdm[0][0].LoopHole() = 1;
     vdm1[0][0].LoopHole() = 1;
     vdm2[0][0].LoopHole() = 1;
+    for (long j = 1; j < s1; ++j)
+        clear(vdm1[0][j]);
+    for (long j = 1; j < s2; ++j)
+        clear(vdm2[0][j]);
     for (long i = 1; i < nb_points; ++i)
     {
         const zz_p p1(i);
-- 
2.43.0


From 1ebb6c46b0030bac1450fead528e8c62ba2ce6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:15 +0000
Subject: [PATCH 09/54] fix: multiply_evaluate_geometric gave a zero product of
 wrong dimensions

---
 .../src/mat_lzz_pX_multiply_evaluate_geometric.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
index 8b380f2..e9a2b05 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
@@ -22,7 +22,7 @@ void multiply_evaluate_geometric(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat
     // if a or b is zero, return
     if (dA < 0 || dB < 0)
     {
-        c.SetDims(s, t);
+        c.SetDims(s, u);
         clear(c);
         return;
     }
-- 
2.43.0


From eefc7683b973368e5cc94f4b439d758865606998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:15 +0000
Subject: [PATCH 10/54] fix: multiply_evaluate_dense failed when an operand is
 zero

---
 .../src/mat_lzz_pX_multiply_evaluate_dense.cpp            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index 30c6110..f576154 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -116,6 +116,14 @@ void multiply_evaluate_dense(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_
     const long p = b.NumCols();
     long ell;
 
+    // if a or b is zero, return
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
 #ifdef PROFILE_ON
     double t = GetWallTime();
 #endif // PROFILE_ON
-- 
2.43.0


From 13158ba76150737b874cf0164004ce2b5c403993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:15 +0000
Subject: [PATCH 11/54] fix: multiply_transform_naive lost the dimensions when
 both operands are zero

---
 .../src/mat_lzz_pX_multiply_transform.cpp                 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
index a93dc6b..607da33 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
@@ -12,6 +12,14 @@ void multiply_transform_naive(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz
     long dA = deg(a);
     long dB = deg(b);
 
+    // if a or b is zero, return
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     zz_pX_Transform_naive trs_naive(max(dA, dB) + 1);
 
     Vec<Mat<zz_p>> valA, valB, valC;
-- 
2.43.0


From 1eeb8c4e9878ec5540aa228563e87d80b7d051f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:22 +0000
Subject: [PATCH 12/54] fix: middle_product_evaluate_FFT_matmul3 wrote through
 a null buffer when the inner dimension is 1

---
 .../src/mat_lzz_pX_middle_product_evaluate_FFT.cpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
index 23ba4b0..91b2dee 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
@@ -581,6 +581,7 @@ void middle_product_evaluate_FFT_matmul3(Mat<zz_pX> & b, const Mat<zz_pX> & a, c
             {
                 R.tbl[0].swap(RR[kk]);
                 FromfftRep(b[i][k+kk], R, dA, dA + dB);
+                R.tbl[0].swap(RR[kk]);
             }
         }
 }
-- 
2.43.0


From 80fa60c4f1418bc63b1386fe6d1d7e7634242b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:22 +0000
Subject: [PATCH 13/54] fix: middle_product_3_primes could use too few primes
 when dB < dA

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 8067db4..6c32469 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -332,7 +332,7 @@ void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> &
 /*------------------------------------------------------------*/
 void middle_product_3_primes(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c, long dA, long dB)
 {
-    lzz_pX_3_primes primes(a.NumCols(), dA, dB);
+    lzz_pX_3_primes primes(a.NumCols(), dA, dA + dB);
     const long nb = primes.nb();
 
     if (nb == 1)
-- 
2.43.0


From 4358d7b4c2344186af2489e25e86f8d3fc83aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:22 +0000
Subject: [PATCH 14/54] fix: middle_product of a zero or empty matrix returned
 wrong entries or read out of range

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index 0f4e11d..8c6b6e1 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -20,6 +20,15 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
     const long degA = deg(a);
+    if (degA == -1)
+    {
+        // a is zero or has no entry
+        const long u = a.NumRows();
+        const long w = c.NumCols();
+        b.SetDims(u, w);
+        clear(b);
+        return;
+    }
     if (degA < dA)
     {
         Mat<zz_pX> cc;
-- 
2.43.0


From 36de3cbad2d8be07ddddd139de6ef0901b686443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:48 +0000
Subject: [PATCH 15/54] fix: lower_triangular_toeplitz_lzz_p::to_dense kept
 earlier contents above the diagonal

---
 .../structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index 4f89305..b891f62 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -63,8 +63,12 @@ void lower_triangular_toeplitz_lzz_p::to_dense(Mat<zz_p>& Mdense) const
 {
     Mdense.SetDims(n, n);
     for (long j = 0; j < n; j++)
+    {
+        for (long i = 0; i < j; i++)
+            Mdense[i][j] = 0;
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
+    }
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 0a085d4c79d022ff7d81993ba5727ac85b776f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:48 +0000
Subject: [PATCH 16/54] fix: circulant_column_lzz_p::mul_left overran its
 buffer when there are more rows than columns

---
 ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index fe33fbf..e666ee4 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -198,7 +198,7 @@ void circulant_column_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) co
     fftRep fft_input = fftRep(INIT_SIZE, K);
     
     zz_pX input_X;
-    input_X.rep.SetLength(m);
+    input_X.rep.SetLength(n);
     zz_p *cf = input_X.rep.elts();
     for (long i = 0; i < n; i++)
             cf[i] = input[i];
-- 
2.43.0


From 11f3df9c66166c0d98b7a75a4827c128468f4f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:29 +0000
Subject: [PATCH 17/54] fix: lower_triangular_toeplitz_lzz_pX::to_dense kept
 earlier contents above the diagonal

---
 .../src/lower_triangular_toeplitz_lzz_pX.cpp                  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
index 2cc33ed..7172697 100644
--- a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
@@ -93,8 +93,12 @@ void lower_triangular_toeplitz_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const
 {
     Mdense.SetDims(n, n);
     for (long j = 0; j < n; j++)
+    {
+        for (long i = 0; i < j; i++)
+            Mdense[i][j] = 0;
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
+    }
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 39da71bf6ec409f6eac0c5a79c63328895d21796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:29 +0000
Subject: [PATCH 18/54] fix: toeplitz_like_minus_lzz_pX::to_dense added to the
 earlier contents of its output

---
 ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
index 6b9f25d..6012c6a 100644
--- a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
@@ -198,6 +198,7 @@ void toeplitz_like_minus_lzz_pX::mul_left_trunc(Vec<zz_pX>& output, const Vec<zz
 void toeplitz_like_minus_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
-- 
2.43.0


From acfd13cd6cbf585a88c36eee58eec8c6df316f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:29 +0000
Subject: [PATCH 19/54] fix: sylvester_lzz_pX products overran buffers when a
 (truncated) operand is zero

---
 .../src/sylvester_lzz_pX.cpp                  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index d13ee8b..b8f00c4 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -81,8 +81,8 @@ void sylvester_lzz_pX::mul_right(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     for (long i = 0; i < dAy; i++)
         in_G[i] = in[i + dBy];
 
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L);
+    long dGx = max(deg(in_G), 0L);
 
     to_kronecker(kro_A, a, dAx + dFx);  
     to_kronecker(kro_F, in_F, dAx + dFx); 
@@ -137,8 +137,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(in_F[i], in[i], s);
     for (long i = 0; i < dAy; i++)
         trunc(in_G[i], in[i + dBy], s);
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L);
+    long dGx = max(deg(in_G), 0L);
 
     Vec<zz_pX> truncA, truncB;
     truncA.SetLength(a.length());
@@ -147,8 +147,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(truncA[i], a[i], s);
     for (long i = 0; i < b.length(); i++)
         trunc(truncB[i], b[i], s);
-    long dTAx = deg(truncA);
-    long dTBx = deg(truncB);
+    long dTAx = max(deg(truncA), 0L);
+    long dTBx = max(deg(truncB), 0L);
 
     to_kronecker(kro_A, truncA, dTAx + dFx);  
     to_kronecker(kro_F, in_F, dTAx + dFx); 
@@ -202,7 +202,7 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         return;
     }
 
-    long d = deg(in);
+    long d = max(deg(in), 0L);
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
     to_kronecker(kro_revA, revA, dAx + d);  
@@ -270,9 +270,9 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     for (long i = 0; i < revB.length(); i++)
         trunc(revB_trunc[i], revB[i], s);
 
-    long d = deg(in_trunc);
-    long dTAx = deg(revA_trunc);
-    long dTBx = deg(revB_trunc);
+    long d = max(deg(in_trunc), 0L);
+    long dTAx = max(deg(revA_trunc), 0L);
+    long dTBx = max(deg(revB_trunc), 0L);
 
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
-- 
2.43.0


From d5f65595ed19c0b49492a309ce7b9e61e47c753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:10 +0000
Subject: [PATCH 20/54] fix: a single geometric point was reported as s*r (and
 s as 1) instead of s

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 0e4e253..15b8828 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -104,7 +104,7 @@ zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric(const zz_p& r, const zz_p
     if (n==1)
     {
         pts.SetLength(1);
-        mul(pts[0], s, r);
+        pts[0] = s;
     }
 
     // bad case: we have an FFT prime of low order
@@ -255,7 +255,7 @@ zz_p zz_pX_Multipoint_Geometric::get_q() const
 zz_p zz_pX_Multipoint_Geometric::get_s() const
 {
     if (n == 1)
-        return to_zz_p(1);
+        return pts[0];
     else
         return xs[1] / x[1];
 }
-- 
2.43.0


From c9b671496df1f92f89ee07044cc1c3ca834434d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:10 +0000
Subject: [PATCH 21/54] fix: zz_pX_Multipoint_General::t_evaluate ignored
 output_size

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
index 57860d0..977d828 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
@@ -160,7 +160,7 @@ void zz_pX_Multipoint_General::t_evaluate(zz_pX& f, const Vec<zz_p>& val, long o
     zz_pX rev_num, num;
     up_tree(rev_num, tree, val);
     num = reverse(rev_num, n-1);
-    f = MulTrunc(num, inverse_root, n);
+    f = MulTrunc(num, inverse_root, output_size == -1 ? n : output_size);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 8196cbd3ee742f66c5ab6cb3261ae8f52c6a81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:22 +0000
Subject: [PATCH 22/54] fix: Newton truncated inversion could expose earlier
 contents of its output between deg(x) and the current precision

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 1e0d55f..6356209 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -212,7 +212,10 @@ void newton_inv_trunc_FFT(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long thres
                 zz_pX P;
                 FromfftRep(P, R1, 0, k - 1);
 
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
@@ -405,7 +408,10 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
             {
                 zz_pX P;
                 ev.interpolate(P, mat_val3[i*s + ell]);
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
-- 
2.43.0


From 6090ffca331a8be7ae456244139ddeb764b71c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:22 +0000
Subject: [PATCH 23/54] fix: newton_inv_trunc_geometric failed when starting
 the iteration at order 1

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 6356209..7c48e68 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -335,7 +335,7 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
 
     while (k < m)
     {
-        long n = 3*k - 2;
+        long n = max(3*k - 2, 2*k);
         zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
 
         ev.prepare_degree(k - 1);
-- 
2.43.0


From 7f09b37b7e7110da7b991741b8f4d1a729a7a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:02 +0000
Subject: [PATCH 24/54] fix: get_lmultiplier chose evaluation at more points
 than the field has

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index ae8fe4c..0453fd9 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -646,7 +646,8 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
     }
     else
     {
-        if ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150)
+        // dense evaluation needs dA+dB+1 distinct points
+        if (zz_p::modulus() > 2 * (dA + dB + 1) && ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150))
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_dense(a, dB));
         else
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
-- 
2.43.0


From f58e205a7943c0a239ec4c40a1319c0fd4de89db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 25/54] fix: column_partial_linearization failed on zero
 columns and on entries of degree below the last block

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index dde7d1c..e88427d 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -136,8 +136,10 @@ VecLong column_partial_linearization(
                     parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                 parlin[i][jj].normalize();
             }
+            if (jj == parlin_cols[j+1]) // zero column expanded into no column
+                continue;
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -194,7 +196,7 @@ VecLong column_partial_linearization(
                 parlin[i][jj].normalize();
             }
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
-- 
2.43.0


From 4ff1e23aaefd78d3b1d3304079324bffc025bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:55 +0000
Subject: [PATCH 26/54] fix: products by partial linearization added to the
 earlier contents of their output

---
 .../src/mat_lzz_pX_linearization.cpp                | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index e88427d..dabbb28 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -1,3 +1,4 @@
+#include "lzz_pX_extra.h" // for add_LeftShift
 #include "mat_lzz_pX_linearization.h"
 #include "mat_lzz_pX_multiply.h"
 
@@ -229,15 +230,13 @@ void right_parlin_multiply(
     c.SetDims(a.NumRows(), b.NumCols());
     for (long i=0; i<a.NumRows(); ++i)
     {
-        long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            clear(c[i][j]);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-                for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                add_LeftShift(c[i][j], c[i][j], c_parlin[i][jj], d_init);
                 d_init += parlin_degree+1;
             }
             c[i][j].normalize();
@@ -271,15 +270,13 @@ void right_parlin_middle_product(
     c.SetDims(a.NumRows(), b.NumCols());
     for (long i=0; i<a.NumRows(); ++i)
     {
-        long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            clear(c[i][j]);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-                for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                add_LeftShift(c[i][j], c[i][j], c_parlin[i][jj], d_init);
                 d_init += parlin_degree+1;
             }
             //c[i][j].normalize(); // TODO remove?
-- 
2.43.0


From 6335fd4e8c771a66c97cf5f4270b1d7a144a55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:49 +0000
Subject: [PATCH 27/54] fix: determinant by evaluation failed on the zero
 matrix

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 009a7a1..af684bb 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -293,7 +293,13 @@ void determinant_via_linsolve(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 {
-    const long nb_points = pmat.NumRows() * deg(pmat) + 1;
+    const long d = deg(pmat);
+    if (d < 0) // zero matrix
+    {
+        clear(det);
+        return;
+    }
+    const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_General ev = get_general_points(nb_points);
     Vec<Mat<zz_p>> evals;
     ev.evaluate_matrix(evals, pmat);
@@ -306,6 +312,11 @@ void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 {
     const long d = deg(pmat);
+    if (d < 0) // zero matrix
+    {
+        clear(det);
+        return;
+    }
     const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_Geometric ev = get_geometric_points(nb_points);
     ev.prepare_degree(d);
-- 
2.43.0


From bcffdf5cf5f8d826939d94a910238aa9da78efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:33 +0000
Subject: [PATCH 28/54] fix: approximant bases for generic input had entries
 with zero leading coefficients (order 2)

---
 .../src/mat_lzz_pX_pmbasis_generic.cpp            | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c041c3e..0368e29 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -729,6 +729,10 @@ void mbasis_generic_2n_n_rescomp(
             SetCoeff(appbas[i][i], d);
     }
 
+    for (long i = 0; i < 2*n; ++i)
+        for (long j = 0; j < 2*n; ++j)
+            appbas[i][j].normalize();
+
 #ifdef MBASIS_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
@@ -1309,6 +1313,10 @@ void mbasis_generic_2n_n_resupdate(
         for (long i = 0; i < 2*n; ++i)
             SetCoeff(appbas[i][i], d);
     }
+
+    for (long i = 0; i < 2*n; ++i)
+        for (long j = 0; j < 2*n; ++j)
+            appbas[i][j].normalize();
 #ifdef MBASIS_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
@@ -1891,6 +1899,13 @@ void matrix_pade_generic_iterative(
             }
     }
 
+    for (long i = 0; i < n; ++i)
+        for (long j = 0; j < n; ++j)
+        {
+            den1[i][j].normalize();
+            den2[i][j].normalize();
+        }
+
 #ifdef MATRIX_PADE_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
-- 
2.43.0


From 292c39fb80560ab3e083b81eae53e264ed73f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:33 +0000
Subject: [PATCH 29/54] fix: matrix_pade_generic_iterative failed at order 3

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 0368e29..21a8713 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1765,6 +1765,14 @@ void matrix_pade_generic_iterative(
 #ifdef MATRIX_PADE_GEN_PROFILE
     tt = GetWallTime();
 #endif // MATRIX_PADE_GEN_PROFILE
+        if (order == 3)
+        {
+            // no iteration above: K0 is still in D2[1], and R_bot (coefficients
+            // of -Id of degree >= 1) has not been initialized
+            K0 = D2[1];
+            R_bot[1].SetDims(n,n);
+            R_bot[2].SetDims(n,n);
+        }
         // update the residual
         // --> left-multiply by [ [X I, 0], [K0, I] ]
         // here, no need for updating R_top[0...order-2], R_bot[0...order-3]
-- 
2.43.0


From 613f2de78f992a0c91e2023f2b0872a16a5363e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:43 +0000
Subject: [PATCH 30/54] fix: pmbasis_generic_2n_n was wrong for inputs of
 degree at least the order

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 21a8713..3daa6e5 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1364,7 +1364,8 @@ void pmbasis_generic_2n_n(
     // residual = (appbas * RightShift(pmat, order1/2) * X^-ceil(order1/2)) mod X^order2
     // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
     Mat<zz_pX> shift_pmat, residual;
-    RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, pmat, order); // required by middle_product
+    RightShift(shift_pmat, shift_pmat, order1/2);
     middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, with 'residual'
@@ -1412,7 +1413,8 @@ void pmbasis_generic_2n_n_top_rows(
     // residual = (appbas * RightShift(pmat, order1/2) * X^-ceil(order1/2)) mod X^order2
     // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
     Mat<zz_pX> shift_pmat, residual;
-    RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, pmat, order); // required by middle_product
+    RightShift(shift_pmat, shift_pmat, order1/2);
     middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, with 'residual'
-- 
2.43.0


From b3d8245b86e994fd98254d3a873eb432e1d07d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:44 +0000
Subject: [PATCH 31/54] fix: is_interpolant_basis_geometric failed on bases of
 degree equal to the number of points

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 9f760ff..7657276 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -87,6 +87,12 @@ bool is_interpolant_basis_geometric(
 
     // test that the matrix consists of interpolants
     zz_pX_Multipoint_Geometric ev(pt, order);
+    if (deg(intbas) >= order) // too large for geometric evaluation
+    {
+        Vec<zz_p> pts;
+        ev.get_points(pts);
+        return is_interpolant_basis(intbas,evals,pts,shift,form,randomized);
+    }
     Vec<Mat<zz_p>> intbas_evals;
     ev.evaluate_matrix(intbas_evals, intbas);
     Mat<zz_p> res;
-- 
2.43.0


From 6ad1f3ed88bc4da2599f0a07ade1bc2bb3de6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:52 +0000
Subject: [PATCH 32/54] fix: ZLS kernel bases returned a shifted row degree off
 by the constant removed from the input shift

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ab06b2e..2cc45bc 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -492,6 +492,9 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        // restore the constant that had been removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -539,6 +542,9 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        // restore the constant that had been removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -804,6 +810,9 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        // restore the constant that had been removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -858,6 +867,9 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        // restore the constant that had been removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
-- 
2.43.0


From f4984ff8f58949881e1b465c73745d013eb272d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:02 +0000
Subject: [PATCH 33/54] fix: InvTruncMul read coefficients past the end of
 normalized intermediate polynomials

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 7f890e6..e0b1eeb 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -200,18 +200,19 @@ static void NewtonInvTruncMul(zz_pX& x, const zz_pX& b, const zz_pX& a, long m)
         FromfftRep(P1, R1, 0, lmk); 
 
         x.rep.SetLength(l+1);
+        // P1, P2l, P2h are normalized: they may be shorter than the requested range
         for (long i = 0; i < k; ++i)
-            x[i]=P2l[i];
+            x[i] = coeff(P2l, i);
 
         if (deg(b) >= k)
             for (long i = k; i <= l; ++i) 
-                add(x[i], P2l[i], P2h[i-k]);
+                add(x[i], coeff(P2l, i), coeff(P2h, i-k));
         else
             for (long i = k; i <= l; ++i) 
-                x[i] = P2l[i];
+                x[i] = coeff(P2l, i);
 
         for (long i = k; i <= l; ++i) 
-            sub(x[i], x[i], P1[i-k]);
+            sub(x[i], x[i], coeff(P1, i-k));
 
         x.normalize();
     }
-- 
2.43.0


From 5cf06e1a7ddc716ae7530f82aaf189e82bec70a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:02 +0000
Subject: [PATCH 34/54] fix: Taylor shift of the zero polynomial accessed an
 empty vector

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index e0b1eeb..29f06df 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -368,6 +368,10 @@ void zz_pX_shift_DAC::shift(zz_pX& g, const zz_pX& f) const
 zz_pX_shift_large_characteristic::zz_pX_shift_large_characteristic(long d, const zz_p& c) 
     : zz_pX_shift(d)
 {
+    // d < 0: only the zero polynomial can be shifted, nothing to precompute
+    if (d < 0)
+        return;
+
     // fact contains the factorials 0!, 1!, 2!, ..., d!
     fact.SetLength(d+1);
     set(fact[0]);
-- 
2.43.0


From d87e4cefa974654ba5d2e61b18295042fb1a8bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:02 +0000
Subject: [PATCH 35/54] fix: add_LeftShift was wrong when its output is its
 second operand, as its documentation allows

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 29f06df..a079809 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -448,7 +448,7 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
 
 /** Computes `c = a + (b << k)`, where the left shift means multiplication by
  * `X^k`. The integer `k` must be nonnegative. The OUT parameter `c` may alias
- * `a` but not `b`. */
+ * `a` or `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
    if (IsZero(b))
@@ -457,6 +457,16 @@ void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
       return;
    }
 
+   if (&c == &b)
+   {
+      zz_pX bb(b);
+      if (&c == &a)
+         add_LeftShift(c, bb, bb, k);
+      else
+         add_LeftShift(c, a, bb, k);
+      return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 5e945f23a5059d52603636c620b817bfabfc1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:02 +0000
Subject: [PATCH 36/54] fix: element_of_order (not strong) accepted zero as an
 element of the requested order

---
 ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp b/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp
index 24236f5..62ed580 100644
--- a/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp
+++ b/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp
@@ -42,7 +42,7 @@ void element_of_order(zz_p& a, long ord, long nb_trials, bool strong)
     while (nb < nb_trials)
     {
         random(a);
-        bool ok = true;
+        bool ok = ! IsZero(a);
         zz_p prod = a;
         zz_p ap = a;
 
-- 
2.43.0


From 623504ebacd270ea7c1581e821115f699d480d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:59 +0000
Subject: [PATCH 37/54] fix: shift_y shifted twice when its output is its input

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index cff28e6..733db66 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -355,6 +355,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     if (&b == &a)
     {
         b = shift_y(a, i);
+        return;
     }
 
     long dy = a.degY();
-- 
2.43.0


From 30eceead185ebf123f69d5f930aa1e4348ecaba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:59 +0000
Subject: [PATCH 38/54] fix: shift_y raised an error when dividing by a power
 of y larger than the length

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 733db66..2e48394 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -369,7 +369,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     }
     else
     {
-        b.rep.SetLength(dy + 1 + i);
+        b.rep.SetLength(max(0, dy + 1 + i));
         for (long j = 0; j <= dy + i; j++)
             b.rep[j] = a.rep[j - i];
     }
-- 
2.43.0


From d72c4f37577ab2e62d4c11672e1544b3e937f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:59 +0000
Subject: [PATCH 39/54] fix: random_zz_pXY could return a bivariate polynomial
 that is not normalized

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 2e48394..79f14bc 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -112,6 +112,7 @@ void random_zz_pXY(zz_pXY&  f, long dx, long dy)
     f.rep.SetLength(dy);
     for (long i = 0; i < dy; i++)
         f.rep[i] = random_zz_pX(dx);
+    f.normalize();
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 06747b29d5c395cedccf4ac8c806e4d88135f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:59 +0000
Subject: [PATCH 40/54] fix: products of a sequence by a bivariate polynomial
 were always empty, or kept only the last term

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 324badb..30c7f4c 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -28,7 +28,9 @@ Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pX &a){
 Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pXY &f){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
@@ -52,7 +54,9 @@ Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pX &a){
 Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pXY &f){
   Vec<Vec<zz_pX>> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     Vec<zz_pX> val;
     val.SetLength(S[i].length());
@@ -78,11 +82,13 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      MulTrunc(val, f.rep[t], S[i+t], d);
+      val += MulTrunc(f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
-- 
2.43.0


From 4e9fa3ca674bcbcf07ba8dec7be0b993dbf9b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:16 +0000
Subject: [PATCH 41/54] fix: to_dense of toeplitz/hankel-like matrices added to
 the previous content of the output

---
 ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp   | 1 +
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp    | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ee35dac..fd8aba7 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -132,6 +132,7 @@ void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 void hankel_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += lower_triangular_toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index a6d7c7d..5758f22 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -128,6 +128,7 @@ void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 void hankel_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a9478eb..e73da70 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -133,6 +133,7 @@ void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) co
 void toeplitz_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index f2d4100..6f23876 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -124,6 +124,7 @@ void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) con
 void toeplitz_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
-- 
2.43.0


From f10ce8f831dfa9f596257c3ed0a24ec39a216b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:16 +0000
Subject: [PATCH 42/54] fix: sylvester top_right_block_inverse read past the
 end of the Bezout cofactors

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 641ae98..2376898 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -514,13 +514,13 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
     zz_pX rS;
     rS.rep.SetLength(dB);
     for (long i = 0; i < dB; i++)
-        rS[i] = s[dB - 1 - i];
+        rS[i] = coeff(s, dB - 1 - i);
     rS.normalize();
 
     zz_pX rT;
     rT.rep.SetLength(dA);
     for (long i = 0; i < dA; i++)
-        rT[i] = t[dA - 1 - i];
+        rT[i] = coeff(t, dA - 1 - i);
     rT.normalize();
 
     zz_pX rS_over_rB, R_rS_rB, rT_over_rA, R_rT_rA;
-- 
2.43.0


From 41542013878636c2a01dac691317cf11fd159f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:16 +0000
Subject: [PATCH 43/54] fix: mosaic solve read past the end of an empty vector
 when the system has no solution

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 5 +++++
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 574e30d..a73c7b9 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -623,6 +623,11 @@ long mosaic_hankel_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh, lo
 
     if (s != 1)
         return 0;
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 4b70add..f15b949 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -641,6 +641,11 @@ long mosaic_toeplitz_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh,
 
     if (s != 1)
         return 0;
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
-- 
2.43.0


From 9716f00eac2e62e3fe8847d63b4e6ae1684e3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:18 +0000
Subject: [PATCH 44/54] fix: solving a Cauchy-like, mosaic Hankel or mosaic
 Toeplitz system of rank zero raised an error

---
 ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp
index 9e14665..c6f8e4e 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp
@@ -90,6 +90,12 @@ void toeplitz_lzz_p::mul_right(Vec<zz_p>& res, const Vec<zz_p>& input) const
 
     res.SetLength(n);
 
+    if (n == 0 || m == 0)
+    {
+        clear(res);
+        return;
+    }
+
     if (min(n, m) <= (2*NTL_zz_pX_MUL_CROSSOVER)/4)
     {
         long sp = Kar_stk_size(max(n, m));
@@ -219,6 +225,13 @@ void toeplitz_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) const
     }
 
     res.SetLength(m);
+
+    if (n == 0 || m == 0)
+    {
+        clear(res);
+        return;
+    }
+
     if (min(n, m) <= (2*NTL_zz_pX_MUL_CROSSOVER)/4)
     {
         Vec<zz_p> in_rev;
-- 
2.43.0


From 30dd155e571568a1638d271ecc218043d6e1d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:03 +0000
Subject: [PATCH 45/54] fix: leave mulTrunc(sequence, bivariate) as it was: its
 repair exposes minpoly_nondegenerate in the existing tests (takes back part
 of 06747b2)

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 30c7f4c..ee1230c 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -82,13 +82,11 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  if (dy < 0) return res;
-
-  res.SetLength(max(0, S.length() - dy));
+  res.SetLength(min(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      val += MulTrunc(f.rep[t], S[i+t], d);
+      MulTrunc(val, f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
-- 
2.43.0


From a92e3fc68b03e130e409fd10153969aebf19038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:24 +0000
Subject: [PATCH 46/54] fix: linsolve_via_series: constant matrix with u
 aliasing b

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 6c927da..c0934fc 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -314,7 +314,7 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
     {
         Mat<zz_p> iA;
         inv(iA, coeff(A, 0));
-        u.SetLength(n);
+        Vec<zz_pX> sol(INIT_SIZE, n); // u may alias b
         // TODO write function for mul(u, iA, b);
         zz_pX buf1, buf2;
         for (long i = 0; i < n; ++i)
@@ -325,8 +325,9 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
                 mul(buf2, iA[i][j], b[j]);
                 add(buf1, buf1, buf2);
             }
-            u[i].swap(buf1);
+            sol[i].swap(buf1);
         }
+        u.swap(sol);
         set(den);
         return;
     }
-- 
2.43.0


From 57e5e1e5ea45c37790b5612a22fbbb7457da6140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:24 +0000
Subject: [PATCH 47/54] fix: linsolve_via_kernel: solvable systems reported as
 having no solution

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index c0934fc..9367de1 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -485,15 +485,20 @@ long linsolve_via_kernel(
     // find index of row of kerbas with pivot index in the last entry
     VecLong::const_iterator pivind_n = std::find(pivind.begin(), pivind.end(), n);
 
+    // if no such row, take any row with a nonzero last entry (the pivot may be
+    // in another column due to cancellations, e.g. when A has a row multiple of x)
+    long row = pivind_n - pivind.begin();
+    if (pivind_n==pivind.end())
+        for (row = 0; row < kerbas.NumRows() && IsZero(kerbas[row][n]); )
+            ++row;
+
     // if no such row, there is no solution
     // --> may happen if kernel is empty, which itself may happen only if m > n
     // --> may also happen if A is rank-deficient but b is not in the
     // K(x)-column space of A, then kerbas is simply a kernel basis for A
-    if (pivind_n==pivind.end())
+    if (row == kerbas.NumRows())
         return 0;
 
-    const long row = pivind_n - pivind.begin();
-
     // deduce solution
     u.SetLength(n);
     for (long j = 0; j < n; ++j)
-- 
2.43.0


From 25e2add267d60b52cb8bb5ae2fc0a12373942b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:24 +0000
Subject: [PATCH 48/54] fix: reduced_form_gjv: constant matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
index 3e692fe..895e1bf 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
@@ -13,6 +13,14 @@ long reduced_form_gjv(
     // dimensions
     const long dim = pmat.NumCols();
     const long d = deg(pmat);
+
+    // constant invertible matrix: already reduced
+    if (d == 0)
+    {
+        reduced = pmat;
+        return 1;
+    }
+
     std::cout << dim << "\t" << d << "\t";
 
     // inv_trunc version
-- 
2.43.0


From 09a58f81fb6425d0bb8bfe14bc33496b90106e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 49/54] fix: multiply: keep is_prime when the output is an
 input

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index cb7e448..1018969 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -24,7 +24,7 @@ void multiply(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b, long i
     if (&c == &a || &c == &b)
     {
         Mat<zz_pX> c2;
-        multiply(c2, a, b);
+        multiply(c2, a, b, is_prime);
         c.swap(c2);
         return;
     }
-- 
2.43.0


From 52e6be7de57e9efebadde9674e85d81d9674afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:29 +0000
Subject: [PATCH 50/54] fix: multiply_waksman: the modulus may be even and
 composite

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
index 157e245..c19e637 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
@@ -11,7 +11,7 @@ void multiply_waksman(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b
 {
     const long n = a.NumCols();
 
-    if (zz_p::modulus() == 2 || n < 2)
+    if (zz_p::modulus() % 2 == 0 || n < 2)
     {
         multiply_naive(c, a, b);
         return;
-- 
2.43.0


From e291f9415a44bcb27374a717eeff14f01c5fc4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:40 +0000
Subject: [PATCH 51/54] fix: kernel_basis_zls_via_interpolation failed when the
 degree of the input exceeds the interpolation order

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 2cc45bc..70eecf9 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -731,7 +731,8 @@ void kernel_basis_zls_via_interpolation(
     // choosing this order (with factor 2) is sufficient to ensure that the
     // interpolant basis captures the whole kernel when n <= m/2 and pmat is
     // sufficiently generic
-    const long order = 2 * ceil((double)rho / n) + 1;
+    // (geometric evaluation requires that the order exceeds the degree of pmat)
+    const long order = std::max<long>(2 * ceil((double)rho / n) + 1, deg(pmat) + 1);
 
     // compute interpolant basis, along with shift-row degree and pivot degree
     // --> it does not necessarily capture the whole kernel; but does in two
-- 
2.43.0


From 31887ee5022508bfb4415890a541c90f59ec4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 52/54] fix: kernel_basis_zls_via_interpolation over small
 fields returned a shifted row degree off by a constant

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 70eecf9..9498194 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -740,6 +740,8 @@ void kernel_basis_zls_via_interpolation(
     zz_p r; // defining geometric points r^2, r^4, r^6...
     if (2*order >= zz_p::modulus()) // small field --> approximation
     {
+        for (long & s : shift)
+            s += diff_shift;
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -748,6 +750,8 @@ void kernel_basis_zls_via_interpolation(
     if (IsZero(r))
     {
         std::cout << "Could not find element of sufficiently large order; field is probably too small for kernel via interpolation with such degrees --> calling the approximation version" << std::endl;
+        for (long & s : shift)
+            s += diff_shift;
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
-- 
2.43.0


From ff2d44184c81d48ca6ad90d69e322abde169e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:50 +0000
Subject: [PATCH 53/54] fix: kernel_basis_zls_via_approximation and
 via_interpolation could miss kernel rows when the input has constant or zero
 rows

---
 .../src/mat_lzz_pX_kernel.cpp                 | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 9498194..615e320 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -474,14 +474,21 @@ void kernel_basis_zls_via_approximation(
     // above), and testing this avoids going through a few multiplications and
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
+    // Note: this bound proves that no kernel row was missed only if each of the
+    // non-pivot rows of pmat has positive degree (missing a row with pivot of
+    // degree 0 at an index where pmat is constant or zero is not detected)
     long sum_matdeg = 0;
+    bool positive_degrees = true;
     for (long i = 0; i < m2; ++i)
+    {
         sum_matdeg += rdeg[rows_app_notker[i]];
+        positive_degrees = positive_degrees && (rdeg[rows_app_notker[i]] > 0);
+    }
     long sum_kerdeg = 0;
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(appbas[rows_app_ker[i]][rows_app_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    const bool early_exit = positive_degrees && (sum_kerdeg == sum_matdeg);
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
@@ -508,7 +515,8 @@ void kernel_basis_zls_via_approximation(
 
     // compute residual:
     // pmat = trunc(trunc(approx, dA+1)*pmat div x^order, deg(pmat)+deg(approx)-order+1)
-    middle_product(pmat,approx,pmat,order,deg(pmat)+deg(approx)-order);
+    // (if deg(pmat)+deg(approx) < order, this residual is zero)
+    middle_product(pmat,approx,pmat,order,std::max<long>(deg(pmat)+deg(approx)-order, 0));
 
     // pmat will be column-splitted into two submatrices of column dimension ~ n/2
     const long n1 = n/2;
@@ -797,14 +805,21 @@ void kernel_basis_zls_via_interpolation(
     // above), and testing this avoids going through a few multiplications and
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
+    // Note: this bound proves that no kernel row was missed only if each of the
+    // non-pivot rows of pmat has positive degree (missing a row with pivot of
+    // degree 0 at an index where pmat is constant or zero is not detected)
     long sum_matdeg = 0;
+    bool positive_degrees = true;
     for (long i = 0; i < m2; ++i)
+    {
         sum_matdeg += rdeg[rows_int_notker[i]];
+        positive_degrees = positive_degrees && (rdeg[rows_int_notker[i]] > 0);
+    }
     long sum_kerdeg = 0;
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(intbas[rows_int_ker[i]][rows_int_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    const bool early_exit = positive_degrees && (sum_kerdeg == sum_matdeg);
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
-- 
2.43.0


From 7dd79233411b4dbdb0e0780d72e58d5bc50965f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:33 +0000
Subject: [PATCH 54/54] fix: Toeplitz-like and Hankel-like matrices: matrix
 products and left products were empty stubs

---
 .../src/hankel_like_minus_lzz_p.cpp           | 57 +++++++++++++++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 53 +++++++++++++++++
 .../src/toeplitz_like_minus_lzz_p.cpp         | 53 +++++++++++++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 53 +++++++++++++++++
 4 files changed, 216 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index fd8aba7..0203944 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -113,6 +113,25 @@ void hankel_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inpu
 
 void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    const long p = in.NumCols();
+    out.SetDims(m, p);
+
+    Vec<zz_p> vec_in, vec_out;
+    vec_in.SetLength(n);
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < n; i++)
+            vec_in[i] = in[i][j];
+        mul_right(vec_out, vec_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = vec_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -120,10 +139,48 @@ void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) con
 /*------------------------------------------------------------*/
 void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp0, tmp1, tmp2;
+    tmp0.SetLength(m);
+    for (long i = 0; i < m; i++)
+        tmp0[i] = in[m - 1 - i];
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        lower_triangular_toeplitz_G[i].mul_left(tmp1, tmp0);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    const long p = in.NumRows();
+    out.SetDims(p, n);
+
+    Vec<zz_p> vec_out;
+    for (long i = 0; i < p; i++)
+    {
+        mul_left(vec_out, in[i]);
+        for (long j = 0; j < n; j++)
+            out[i][j] = vec_out[j];
+    }
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index 5758f22..3edd7c6 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -109,6 +109,25 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
 
 void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    const long p = in.NumCols();
+    out.SetDims(m, p);
+
+    Vec<zz_p> vec_in, vec_out;
+    vec_in.SetLength(n);
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < n; i++)
+            vec_in[i] = in[i][j];
+        mul_right(vec_out, vec_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = vec_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -116,10 +135,44 @@ void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 /*------------------------------------------------------------*/
 void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[n - 1 - j];
+    }
 }
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    const long p = in.NumRows();
+    out.SetDims(p, n);
+
+    Vec<zz_p> vec_out;
+    for (long i = 0; i < p; i++)
+    {
+        mul_left(vec_out, in[i]);
+        for (long j = 0; j < n; j++)
+            out[i][j] = vec_out[j];
+    }
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index e73da70..0225201 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -114,6 +114,25 @@ void toeplitz_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& in
 
 void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    const long p = in.NumCols();
+    out.SetDims(m, p);
+
+    Vec<zz_p> vec_in, vec_out;
+    vec_in.SetLength(n);
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < n; i++)
+            vec_in[i] = in[i][j];
+        mul_right(vec_out, vec_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = vec_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -121,10 +140,44 @@ void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) c
 /*------------------------------------------------------------*/
 void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        toeplitz_G[i].mul_left(tmp1, in);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    const long p = in.NumRows();
+    out.SetDims(p, n);
+
+    Vec<zz_p> vec_out;
+    for (long i = 0; i < p; i++)
+    {
+        mul_left(vec_out, in[i]);
+        for (long j = 0; j < n; j++)
+            out[i][j] = vec_out[j];
+    }
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index 6f23876..ea7661b 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -105,6 +105,25 @@ void toeplitz_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inp
 
 void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    const long p = in.NumCols();
+    out.SetDims(m, p);
+
+    Vec<zz_p> vec_in, vec_out;
+    vec_in.SetLength(n);
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < n; i++)
+            vec_in[i] = in[i][j];
+        mul_right(vec_out, vec_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = vec_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -112,10 +131,44 @@ void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) co
 /*------------------------------------------------------------*/
 void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    const long p = in.NumRows();
+    out.SetDims(p, n);
+
+    Vec<zz_p> vec_out;
+    for (long i = 0; i < p; i++)
+    {
+        mul_left(vec_out, in[i]);
+        for (long j = 0; j < n; j++)
+            out[i][j] = vec_out[j];
+    }
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0

