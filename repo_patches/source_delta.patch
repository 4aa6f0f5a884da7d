From d31606df80fddde60b178a65c9a0dc5de7760411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 01/22] fix: negate the left singular vector of a negated
 singular value

The sign flip multiplied the column of U by -0 instead of -1, which zeroed it.
---
 src/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index e2f6105..caab52a 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -215,7 +215,7 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
         if val.is_sign_negative() {
             diag[i] = -val;
             if let Some(u) = &mut u {
-                u.column_mut(i).mul_assign(-A::zero());
+                u.column_mut(i).mul_assign(-A::one());
             }
         }
     }
-- 
2.43.0


From a94d7ce3a2093215064a8f6b6e83f8e32c2ffa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 02/22] fix: keep Givens rotations orthonormal for subnormal
 arguments

The cosine and sine were divided by a hypotenuse that had lost most of its
digits, so the rotation was not a rotation.
---
 src/givens.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/givens.rs b/src/givens.rs
index 68944a2..7d62795 100644
--- a/src/givens.rs
+++ b/src/givens.rs
@@ -18,8 +18,7 @@ impl<A: NdFloat> GivensRotation<A> {
         // Not equivalent to nalgebra impl
         if !y.is_zero() {
             let r = x.hypot(y);
-            let c = x / r;
-            let s = -y / r;
+            let (c, s) = normalize(x, -y, r);
             Some((Self { c, s }, r))
         } else {
             None
@@ -47,8 +46,7 @@ impl<A: NdFloat> GivensRotation<A> {
     pub fn try_new(c: A, s: A, eps: A) -> Option<(Self, A)> {
         let norm = c.hypot(s);
         if norm > eps {
-            let c = c / norm;
-            let s = s / norm;
+            let (c, s) = normalize(c, s, norm);
             Some((Self { c, s }, norm))
         } else {
             None
@@ -111,6 +109,19 @@ impl<A: NdFloat> GivensRotation<A> {
     }
 }
 
+/// Divides `x` and `y` by `norm`, their hypotenuse. A subnormal norm has lost digits, so that the
+/// quotients would not have unit norm; then they are computed from scaled values.
+fn normalize<A: NdFloat>(x: A, y: A, norm: A) -> (A, A) {
+    if norm < A::min_positive_value() {
+        let max = x.abs().max(y.abs());
+        let (x, y) = (x / max, y / max);
+        let norm = x.hypot(y);
+        (x / norm, y / norm)
+    } else {
+        (x / norm, y / norm)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use approx::assert_abs_diff_eq;
-- 
2.43.0


From 028081ca6db5ea765fd85cb82640a9ca8b154a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 03/22] fix: let the symmetric QR iteration converge on
 elements near the underflow threshold

The Wilkinson shift squared its off-diagonal argument, giving 0 / 0 when the
square underflowed, and an off-diagonal element among zero or tiny diagonal
elements was never small enough to be deflated.
---
 src/eigh.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index d99f0ea..a488fee 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -97,7 +97,7 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 }
             }
 
-            if off_diag[m].abs() <= eps * (diag[m].abs() + diag[n].abs()) {
+            if off_diag[m].abs() <= negligible(diag[m], diag[n], eps) {
                 end -= 1;
             }
         } else if subdim == 2 {
@@ -131,6 +131,19 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
     Ok((diag, q_mat))
 }
 
+/// The size up to which an off-diagonal element is taken as zero, given its diagonal neighbours. The
+/// matrix has a largest element of one, so this is never less than the underflow threshold allows:
+/// rotations of yet smaller elements are too inaccurate to decouple them.
+fn negligible<A: NdFloat>(diag0: A, diag1: A, eps: A) -> A {
+    let tol = eps * (diag0.abs() + diag1.abs());
+    let min = A::min_positive_value() / A::epsilon();
+    if tol < min {
+        min
+    } else {
+        tol
+    }
+}
+
 fn delimit_subproblem<A: NdFloat>(
     diag: &Array1<A>,
     off_diag: &mut Array1<A>,
@@ -142,7 +155,7 @@ fn delimit_subproblem<A: NdFloat>(
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs()) {
+            if off_diag.at(m).abs() > negligible(*diag.at(m), *diag.at(n), eps) {
                 break;
             }
         }
@@ -158,7 +171,7 @@ fn delimit_subproblem<A: NdFloat>(
         let m = new_start - 1;
         unsafe {
             if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs())
+                || off_diag.at(m).abs() <= negligible(*diag.at(m), *diag.at(new_start), eps)
             {
                 *off_diag.atm(m) = A::zero();
                 break;
@@ -178,9 +191,9 @@ fn delimit_subproblem<A: NdFloat>(
 ///     tmn  tnn
 pub(crate) fn wilkinson_shift<A: NdFloat>(tmm: A, tnn: A, tmn: A) -> A {
     if !tmn.is_zero() {
-        let tmn_sq = tmn * tmn;
         let d = (tmm - tnn) * A::from(0.5).unwrap();
-        tnn - tmn_sq / (d + d.signum() * (d * d + tmn_sq).sqrt())
+        // Dividing first keeps `tmn * tmn` from underflowing, which could give 0 / 0
+        tnn - tmn * (tmn / (d + d.signum() * d.hypot(tmn)))
     } else {
         tnn
     }
-- 
2.43.0


From 324004629ede4a997e2c680dea96e847bda29d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 04/22] fix: scale Householder columns whose squares leave the
 float range

The reflection axis was computed from the plain sum of squares, so columns whose
elements are very small or very large (for example 1e-170 or 1e200 in f64, 1e-23
in f32) gave a zero, inaccurate or infinite norm and with it wrong QR,
bidiagonal and tridiagonal factors.
---
 src/householder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/householder.rs b/src/householder.rs
index f1b51b2..e07aa48 100644
--- a/src/householder.rs
+++ b/src/householder.rs
@@ -9,7 +9,20 @@ use crate::reflection::Reflection;
 pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
     col: &mut ArrayBase<S, Ix1>,
 ) -> Option<A> {
-    let reflection_norm_sq = col.dot(col);
+    let mut reflection_norm_sq = col.dot(col);
+    // The squares of very small or very large elements leave the range of the float type, so
+    // such columns are first scaled to have a largest element of one.
+    let mut scale = A::one();
+    if reflection_norm_sq < A::min_positive_value() / A::epsilon()
+        || reflection_norm_sq > A::max_value() * A::epsilon()
+    {
+        let amax = col.iter().fold(A::zero(), |m, x| m.max(x.abs()));
+        if !amax.is_zero() {
+            scale = amax;
+            *col /= scale;
+            reflection_norm_sq = col.dot(col);
+        }
+    }
     let reflection_norm = reflection_norm_sq.sqrt();
 
     let first = *col.get(0).unwrap();
@@ -21,7 +34,7 @@ pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
 
     if !new_norm_sq.is_zero() {
         *col /= new_norm_sq.sqrt();
-        Some(-signed_norm)
+        Some(-signed_norm * scale)
     } else {
         None
     }
-- 
2.43.0


From b999e085840b37544929c00c7a1c1b7bd1cf35b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 05/22] fix: accurate eigenvectors of 2x2 blocks in the
 symmetric eigendecomposition

The vector was taken from the difference of an eigenvalue and the diagonal
element next to it, which cancels when the first diagonal element is the
smaller one, and was left alone when shorter than epsilon although the
eigenvalues had been put in descending order.
---
 src/eigh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index a488fee..113def2 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -108,13 +108,20 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            let basis = (eigvals.0 - diag[start + 1], off_diag[start]);
+            // Eigenvector of the larger eigenvalue, from the row without cancellation
+            let half_diff = (diag[start] - diag[start + 1]) * A::from(0.5f64).unwrap();
+            let long = half_diff.abs() + half_diff.hypot(off_diag[start]);
+            let basis = if half_diff >= A::zero() {
+                (long, off_diag[start])
+            } else {
+                (off_diag[start].abs(), long * off_diag[start].signum())
+            };
 
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
 
             if let (Some(q), Some((rot, _))) =
-                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, eps))
+                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, A::zero()))
             {
                 rot.rotate_rows(&mut q.slice_mut(s![.., start..start + 2]))
                     .unwrap();
-- 
2.43.0


From 4a04c5ea931f9c9ba3abfc3c10552263ecb86a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 06/22] fix: accurate singular vectors and values of 2x2 blocks
 in the SVD

The vectors were built from those of the smaller singular value by dividing by
it, and both values multiplied by the lengths of the unnormalised vectors. With
a nearly singular block this gave wrong vectors, and a wrong larger singular
value when vectors were requested.
---
 src/svd.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index caab52a..99eba06 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -378,31 +378,32 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let two = A::from(2.0).unwrap();
     let denom = (m11 + m22).hypot(m12) + (m11 - m22).hypot(m12);
 
-    // NOTE: v1 is the singular value that is the closest to m22.
-    // This prevents cancellation issues when constructing the vector `csv` below. If we chose
-    // otherwise, we would have v1 ~= m11 when m12 is small. This would cause catastrophic
-    // cancellation on `v1 * v1 - m11 * m11` below.
-    let mut v1 = m11 * m22 * two / denom;
-    let mut v2 = denom / two;
+    let v1 = m11 * m22 * two / denom;
+    let v2 = denom / two;
 
     let mut u = None;
     let mut v_t = None;
 
     if compute_v || compute_u {
-        let cv = m11 * m12;
-        let sv = v1 * v1 - m11 * m11;
-        let (csv, sgn_v) = GivensRotation::new(cv, sv);
-        v1 *= sgn_v;
-        v2 *= sgn_v;
+        // Right singular vector `(x, y)` of the larger singular value `v2`, from whichever row of
+        // the eigenvector equation of the Gram matrix has no cancellation. The vectors of `v1` are
+        // taken perpendicular to those of `v2`: dividing by a small `v1` would not be accurate.
+        let off = m11 * m12;
+        let half_diff = ((m11 - m22) * (m11 + m22) - m12 * m12) / two;
+        let long = half_diff.abs() + half_diff.hypot(off);
+        let (x, y) = if half_diff >= A::zero() {
+            (long, off)
+        } else {
+            (off.abs(), long * off.signum())
+        };
+        let (csv, _) = GivensRotation::new(y, -x);
+
+        let (ux, uy) = (m12 * csv.c() - m11 * csv.s(), m22 * csv.c());
+        let (csu, _) = GivensRotation::new(uy, -ux);
+
         if compute_v {
-            v_t = Some(csv.clone());
+            v_t = Some(csv);
         }
-
-        let cu = (m11 * csv.c() + m12 * csv.s()) / v1;
-        let su = (m22 * csv.s()) / v1;
-        let (csu, sgn_u) = GivensRotation::new(cu, su);
-        v1 *= sgn_u;
-        v2 *= sgn_u;
         if compute_u {
             u = Some(csu);
         }
-- 
2.43.0


From 413c63e2975869d9e56264185bdd45ac3713be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:44 +0000
Subject: [PATCH 07/22] fix: reject NaN pivots in the Cholesky decomposition

A NaN in the matrix, or one arising from overflow, passed the positive pivot
test, so that a factor of NaNs was returned as a success.
---
 src/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cholesky.rs b/src/cholesky.rs
index f98091b..0c1ab87 100644
--- a/src/cholesky.rs
+++ b/src/cholesky.rs
@@ -66,7 +66,7 @@ where
                 d = *self.at((j, j)) - d;
             }
 
-            if d <= A::zero() {
+            if d <= A::zero() || d.is_nan() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
 
-- 
2.43.0


From 7e155b58100749527bde350f84e3f7756f0572b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 08/22] fix: keep the bulge of the symmetric QR iteration from
 underflowing

Off-diagonal elements are now negligible when their squares underflow
(the criterion of LAPACK's steqr). With smaller ones in the active block
the bulge becomes exactly zero half way, so the shift never reaches the
end of the block and the iteration does not terminate.
---
 src/eigh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index 113def2..635f1f6 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -139,11 +139,11 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
 }
 
 /// The size up to which an off-diagonal element is taken as zero, given its diagonal neighbours. The
-/// matrix has a largest element of one, so this is never less than the underflow threshold allows:
-/// rotations of yet smaller elements are too inaccurate to decouple them.
+/// matrix has a largest element of one, so elements whose squares underflow do not matter; keeping
+/// them would stall the iteration, as products of two of them become zero while chasing the bulge.
 fn negligible<A: NdFloat>(diag0: A, diag1: A, eps: A) -> A {
     let tol = eps * (diag0.abs() + diag1.abs());
-    let min = A::min_positive_value() / A::epsilon();
+    let min = A::min_positive_value().sqrt();
     if tol < min {
         min
     } else {
-- 
2.43.0


From f69ef8df4a20c74e22d8a482a9001e7a181ac92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:32 +0000
Subject: [PATCH 09/22] fix: keep LOBPCG from returning bogus eigenpairs of
 dependent residuals

When the residual block is rank deficient (always so once 2k > n), its
Cholesky orthonormalization either fails, ending the iteration without
convergence, or succeeds on rounding noise. The Gram matrix of [X R P] is
then singular, and clamping its eigenvalues at 1e-10 yielded vectors that
are not orthonormal and spurious, seemingly converged eigenvalues. Leave
singular directions out of the Rayleigh-Ritz step instead.
---
 src/lobpcg/algorithm.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9bdce9e..ab48fb9 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -13,10 +13,19 @@ use crate::{LinalgError, Order, Result};
 use super::{Lobpcg, LobpcgResult};
 
 /// Solve the generalized eigenvalue problem with pencil (A, B)
+///
+/// Directions in which `B` is numerically singular are left out, so that there are fewer eigenpairs
+/// than rows if the vectors whose Gram matrix is `B` are linearly dependent.
 fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>, Array2<A>)> {
     let (vals_b, vecs_b) = b.eigh_into()?;
-    let vals_b_recip = vals_b.mapv_into(|x| (x.max(A::from(1e-10f32).unwrap())).sqrt().recip());
-    let vecs_b_tilde = vecs_b * vals_b_recip;
+    let cutoff = vals_b.iter().copied().fold(A::zero(), A::max) * A::epsilon().sqrt();
+    let regular = (0..vals_b.len())
+        .filter(|&i| vals_b[i] > cutoff)
+        .collect::<Vec<_>>();
+    let vals_b_recip = vals_b
+        .select(Axis(0), &regular)
+        .mapv_into(|x| x.sqrt().recip());
+    let vecs_b_tilde = vecs_b.select(Axis(1), &regular) * vals_b_recip;
     let a_tilde = vecs_b_tilde.t().dot(&a.dot(&vecs_b_tilde));
     let (vals_a, vecs_a) = a_tilde.eigh_into()?;
     let vecs = vecs_b_tilde.dot(&vecs_a);
@@ -38,6 +47,9 @@ fn sorted_eig<A: NdFloat>(
 
     // sort and ensure that signs are deterministic
     let (vals, vecs) = res.sort_eig(order);
+    if vals.len() < size {
+        return Err(LinalgError::NonInvertible);
+    }
     let s = vecs.row(0).mapv(|x| x.signum());
     let vecs = vecs * s;
     Ok((vals.slice_move(s![..size]), vecs.slice_move(s![.., ..size])))
@@ -254,9 +266,18 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             &mut active_block_r,
         );
 
-        let (r, _) = match orthonormalize(active_block_r) {
-            Ok(x) => x,
-            Err(err) => break Err(err),
+        let r = match orthonormalize(active_block_r.clone()) {
+            Ok((r, _)) => r,
+            // linearly dependent residuals, the Rayleigh Ritz procedure leaves out what is redundant
+            Err(_) => {
+                for mut col in active_block_r.columns_mut() {
+                    let norm = col.norm_l2();
+                    if norm > A::zero() {
+                        col /= norm;
+                    }
+                }
+                active_block_r
+            }
         };
 
         let ar = a(r.view());
-- 
2.43.0


From 33a7cc679890b2a8cfd8b7c3dcbab1b3cdc04184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 10/22] fix: project onto the complement of non-orthonormal
 LOBPCG constraints

The projection needs inv(Y'Y), that is, both triangular solves with the
Cholesky factor of Y'Y; with one of them it is right for orthonormal
constraints only.
---
 src/lobpcg/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index ab48fb9..cd43678 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -79,9 +79,14 @@ fn apply_constraints<A: NdFloat>(
 ) {
     let gram_yv = y.t().dot(&v);
 
+    // solve `(L . L') . u = gram_yv`
     let u = cholesky_yy
         .solve_triangular_into(gram_yv, UPLO::Lower)
         .unwrap();
+    let u = cholesky_yy
+        .t()
+        .solve_triangular_into(u, UPLO::Upper)
+        .unwrap();
 
     // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
-- 
2.43.0


From 151254f2d87be7e3be36855d5554329a254b8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 11/22] fix: return no singular values for an empty truncated
 SVD

decompose(0) gives an empty solution, whose values() and values_vectors()
panicked.
---
 src/lobpcg/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index ac941af..2299a05 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -37,7 +37,7 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
             // calculate cut-off magnitude (borrowed from scipy)
             let cutoff = A::epsilon() * // float precision
                          A::correction() * // correction term (see trait below)
-                         *a[0].1; // max eigenvalue
+                         a.first().map_or(A::zero(), |(_, x)| **x); // max eigenvalue
 
             // filter low singular values away
             let (values, indices): (Vec<A>, Vec<usize>) = a
-- 
2.43.0


From ce848c134c85d6771f1429def09e8d7586c06c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 12/22] fix: end the eigenpair iteration when the constraints
 leave nothing over

The iterator counted the eigenpairs in the space of the initial
constraints as remaining and went on, after the last one, with rounding
noise.
---
 src/lobpcg/eig.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/eig.rs b/src/lobpcg/eig.rs
index 2cc15e6..629e47f 100644
--- a/src/lobpcg/eig.rs
+++ b/src/lobpcg/eig.rs
@@ -179,7 +179,7 @@ impl<A: NdFloat + Sum, R: Rng> IntoIterator for TruncatedEig<A, R> {
     fn into_iter(self) -> TruncatedEigIterator<A, R> {
         TruncatedEigIterator {
             step_size: 1,
-            remaining: self.problem.len_of(Axis(0)),
+            remaining: self.num_unconstrained(),
             eig: self,
         }
     }
@@ -189,6 +189,12 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEig<A, R> {
     pub fn into_iter_step_size(self, step_size: usize) -> Result<TruncatedEigIterator<A, R>> {
         TruncatedEigIterator::new(self, step_size)
     }
+
+    /// Number of eigenpairs orthogonal to the constraints
+    fn num_unconstrained(&self) -> usize {
+        let constrained = self.constraints.as_ref().map_or(0, |y| y.ncols());
+        self.problem.nrows().saturating_sub(constrained)
+    }
 }
 
 /// Truncated eigenproblem iterator
@@ -230,7 +236,7 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEigIterator<A, R> {
         }
 
         Ok(TruncatedEigIterator {
-            remaining: obj.problem.len_of(Axis(0)),
+            remaining: obj.num_unconstrained(),
             eig: obj,
             step_size,
         })
-- 
2.43.0


From 5f2408d4f72e23e5fafba40d7aac665fdef7704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 13/22] fix: keep the smallest singular values of singular
 matrices from being NaN

A zero eigenvalue of the Gram matrix may come out slightly negative, and
dividing by a zero singular value makes the vectors NaN or infinite.
---
 src/lobpcg/svd.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index 2299a05..2766d06 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -50,7 +50,11 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         } else {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
 
-            let (values, indices) = a.into_iter().map(|(a, b)| (b.sqrt(), a)).unzip();
+            // rounding may turn a zero into a slightly negative eigenvalue
+            let (values, indices) = a
+                .into_iter()
+                .map(|(a, b)| (b.max(A::zero()).sqrt(), a))
+                .unzip();
 
             (values, indices)
         };
@@ -79,6 +83,7 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
                 .columns_mut()
                 .into_iter()
                 .zip(values.iter())
+                .filter(|(_, b)| !b.is_zero())
                 .for_each(|(mut a, b)| a.mapv_inplace(|x| x / *b));
 
             (ularge, vlarge)
@@ -90,6 +95,7 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
                 .columns_mut()
                 .into_iter()
                 .zip(values.iter())
+                .filter(|(_, b)| !b.is_zero())
                 .for_each(|(mut a, b)| a.mapv_inplace(|x| x / *b));
 
             (ularge, vlarge)
-- 
2.43.0


From bad986a352aaee4a9387b6320e7deff055442c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 14/22] fix: report LOBPCG iterations that end without
 convergence

The documentation promises an error, carrying the best solution, when the
precision is not reached within the maximum number of iterations, but the
result was Ok.
---
 src/lib.rs              |  3 +++
 src/lobpcg/algorithm.rs | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 05187cf..4fed94a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,6 +54,9 @@ pub enum LinalgError {
     /// Wrong number of rows in matrix
     #[error("Matrix must have {expected} rows, not {actual}")]
     WrongRows { expected: usize, actual: usize },
+    /// Required precision not reached within the maximum number of iterations
+    #[error("Iteration did not converge")]
+    NotConverged,
     /// ShapeError from `ndarray`
     #[error(transparent)]
     Shape(#[from] ShapeError),
diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index cd43678..6245f58 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -130,9 +130,9 @@ fn orthonormalize<T: NdFloat>(v: Array2<T>) -> Result<(Array2<T>, Array2<T>)> {
 /// * `order` - Whether to solve for the largest or lowest eigenvalues
 ///
 /// The function returns an `LobpcgResult` with the eigenvalue/eigenvector and achieved residual norm
-/// for it. All iterations are tracked and the optimal solution returned. In case of an error a
-/// special variant `LobpcgResult::NotConverged` additionally carries the error. This can happen when
-/// the precision of the matrix is too low (switch then from `f32` to `f64` for example).
+/// for it. All iterations are tracked and the optimal solution returned. If it is not below `tol`
+/// when the iterations are exhausted, it is returned along with `LinalgError::NotConverged`. This can
+/// happen when the precision of the matrix is too low (switch then from `f32` to `f64` for example).
 pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayViewMut2<A>)>(
     a: F,
     mut x: Array2<A>,
@@ -249,9 +249,12 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
 
         // if we are below the threshold for all eigenvalue or exceeded the number of iteration,
         // abort
-        if current_block_size == 0 || iter == 0 {
+        if current_block_size == 0 {
             break Ok(residual_norms);
         }
+        if iter == 0 {
+            break Err(LinalgError::NotConverged);
+        }
 
         // select active eigenvalues, apply pre-conditioner, orthogonalize to Y and orthonormalize
         let mut active_block_r = ndarray_mask(r.view(), &activemask);
-- 
2.43.0


From e5ea26121603ea581cf072f44bb64425a2763670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 15/22] fix: keep LOBPCG from stagnating on linearly dependent
 search directions

Mixing X with the dropped directions perturbed the eigenvector approximations and left pairs
stuck above the tolerance. Leave out whole directions which are in the span of X and the others
instead, and orthonormalize dependent residuals column by column.
---
 src/lobpcg/algorithm.rs | 88 ++++++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 22 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 6245f58..200ee92 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -14,21 +14,31 @@ use super::{Lobpcg, LobpcgResult};
 
 /// Solve the generalized eigenvalue problem with pencil (A, B)
 ///
-/// Directions in which `B` is numerically singular are left out, so that there are fewer eigenpairs
-/// than rows if the vectors whose Gram matrix is `B` are linearly dependent.
+/// `B` is the Gram matrix of a set of vectors. Vectors which are numerically in the span of those
+/// before them are left out, so that there may be fewer eigenpairs than rows.
 fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>, Array2<A>)> {
-    let (vals_b, vecs_b) = b.eigh_into()?;
-    let cutoff = vals_b.iter().copied().fold(A::zero(), A::max) * A::epsilon().sqrt();
-    let regular = (0..vals_b.len())
-        .filter(|&i| vals_b[i] > cutoff)
-        .collect::<Vec<_>>();
-    let vals_b_recip = vals_b
-        .select(Axis(0), &regular)
-        .mapv_into(|x| x.sqrt().recip());
-    let vecs_b_tilde = vecs_b.select(Axis(1), &regular) * vals_b_recip;
-    let a_tilde = vecs_b_tilde.t().dot(&a.dot(&vecs_b_tilde));
+    // B-orthonormalize the unit vectors with the Gram-Schmidt process
+    let dim = b.nrows();
+    let mut basis = Array2::zeros((dim, dim));
+    let mut size = 0;
+    for i in 0..dim {
+        let mut v = Array1::zeros(dim);
+        v[i] = A::one();
+        for _ in 0..2 {
+            let span = basis.slice(s![.., ..size]);
+            v = &v - &span.dot(&span.t().dot(&b.dot(&v)));
+        }
+        let norm = v.dot(&b.dot(&v));
+        if norm > b[(i, i)] * A::epsilon().sqrt() {
+            basis.column_mut(size).assign(&(v / norm.sqrt()));
+            size += 1;
+        }
+    }
+    let basis = basis.slice_move(s![.., ..size]);
+
+    let a_tilde = basis.t().dot(&a.dot(&basis));
     let (vals_a, vecs_a) = a_tilde.eigh_into()?;
-    let vecs = vecs_b_tilde.dot(&vecs_a);
+    let vecs = basis.dot(&vecs_a);
 
     Ok((vals_a, vecs))
 }
@@ -113,6 +123,43 @@ fn orthonormalize<T: NdFloat>(v: Array2<T>) -> Result<(Array2<T>, Array2<T>)> {
     Ok((u, gram_vv_fac))
 }
 
+/// Orthonormalize `V` unless its columns are linearly dependent up to rounding
+fn orthonormalize_independent<T: NdFloat>(v: Array2<T>) -> Result<(Array2<T>, Array2<T>)> {
+    let (u, fac) = orthonormalize(v)?;
+    let independent = fac.rows().into_iter().enumerate().all(|(i, row)| {
+        // squared distance of the i-th column to the span of those before, and its squared norm
+        row[i] * row[i] > row.dot(&row) * T::epsilon().sqrt()
+    });
+
+    if independent {
+        Ok((u, fac))
+    } else {
+        Err(LinalgError::NonInvertible)
+    }
+}
+
+/// Orthonormalize the columns of `V` to each other and to the orthonormal columns of `X`, columns
+/// linearly dependent on those before them up to rounding become zero
+fn orthogonalize_columns<T: NdFloat + Sum>(v: &mut Array2<T>, x: ArrayView2<T>) {
+    for i in 0..v.ncols() {
+        let (before, mut rest) = v.view_mut().split_at(Axis(1), i);
+        let mut col = rest.column_mut(0);
+        let cutoff = col.norm_l2() * T::epsilon().sqrt();
+        for _ in 0..2 {
+            let along_x = x.dot(&x.t().dot(&col));
+            col -= &along_x;
+            let along_before = before.dot(&before.t().dot(&col));
+            col -= &along_before;
+        }
+        let norm = col.norm_l2();
+        if norm > cutoff {
+            col /= norm;
+        } else {
+            col.fill(T::zero());
+        }
+    }
+}
+
 /// Eigenvalue solver for large symmetric positive definite (SPD) eigenproblems
 ///
 /// # Arguments
@@ -274,16 +321,11 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             &mut active_block_r,
         );
 
-        let r = match orthonormalize(active_block_r.clone()) {
+        let r = match orthonormalize_independent(active_block_r.clone()) {
             Ok((r, _)) => r,
-            // linearly dependent residuals, the Rayleigh Ritz procedure leaves out what is redundant
+            // linearly dependent residuals, leave out what is redundant
             Err(_) => {
-                for mut col in active_block_r.columns_mut() {
-                    let norm = col.norm_l2();
-                    if norm > A::zero() {
-                        col /= norm;
-                    }
-                }
+                orthogonalize_columns(&mut active_block_r, x.view());
                 active_block_r
             }
         };
@@ -334,7 +376,9 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
                 let active_p = ndarray_mask(p.view(), &activemask);
                 let active_ap = ndarray_mask(ap.view(), &activemask);
 
-                orthonormalize(active_p).map(|x| (active_ap, x)).ok()
+                orthonormalize_independent(active_p)
+                    .map(|x| (active_ap, x))
+                    .ok()
             })
             .and_then(|(active_ap, (active_p, p_r))| {
                 // orthonormalize AP with R^{-1} of A
-- 
2.43.0


From ad01bf2132dab20977a6eff8aa54d5c3b267ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 16/22] fix: resume LOBPCG eigenpairs whose residuals grow
 again

The mask of converged pairs goes by position, but the pairs move: a position stayed locked after
another vector had taken it, and success was reported for results far above the tolerance.
---
 src/lobpcg/algorithm.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 200ee92..6988feb 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -237,9 +237,6 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     let mut x = x.dot(&eig_block);
     let mut ax = ax.dot(&eig_block);
 
-    // track residual below threshold
-    let mut activemask = vec![true; size_x];
-
     // track residuals and best result
     let mut residual_norms_history = Vec::new();
     let mut best_result = None;
@@ -280,12 +277,8 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             best_result = Some((lambda.clone(), x.clone(), residual_norms.clone()));
         }
 
-        // disable eigenvalues which are below the tolerance threshold
-        activemask = residual_norms
-            .iter()
-            .zip(activemask.iter())
-            .map(|(x, a)| *x > tol && *a)
-            .collect();
+        // disable eigenvalues which are below the tolerance threshold, until they exceed it again
+        let activemask = residual_norms.iter().map(|x| *x > tol).collect::<Vec<_>>();
 
         // resize identity block if necessary
         let current_block_size = activemask.iter().filter(|x| **x).count();
-- 
2.43.0


From 693e358183e702f29d4d2c30695c63e9da6f4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 17/22] fix: keep LOBPCG iterations in the complement of the
 constraints

The residuals kept their components along the constraints, which iterations cannot reduce. They
never fell below the tolerance for constraints which are no eigenvectors, and the rounding errors
left of their projections were normalised to search directions which violate the constraints.
Measure the residuals in the complement, and drop projections which are nothing but rounding.
---
 src/lobpcg/algorithm.rs | 49 ++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 6988feb..d83be0a 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -102,6 +102,23 @@ fn apply_constraints<A: NdFloat>(
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
 }
 
+/// Project the columns of `V` onto a subspace
+///
+/// The projection is repeated, for its rounding errors are large where little of a column remains.
+/// Where nothing but rounding errors would remain, the column becomes zero.
+fn project_out<A: NdFloat + Sum>(v: &mut Array2<A>, projection: impl Fn(&mut Array2<A>)) {
+    let norms = v.map_axis(Axis(0), |x| x.norm_l2());
+    projection(v);
+    projection(v);
+
+    let noise = A::epsilon() * A::from(10.0).unwrap();
+    for (mut col, norm) in v.columns_mut().into_iter().zip(norms) {
+        if col.norm_l2() <= norm * noise {
+            col.fill(A::zero());
+        }
+    }
+}
+
 /// Orthonormalize `V` with Cholesky factorization
 ///
 /// This also returns the matrix `R` of the `QR` problem
@@ -144,7 +161,7 @@ fn orthogonalize_columns<T: NdFloat + Sum>(v: &mut Array2<T>, x: ArrayView2<T>)
     for i in 0..v.ncols() {
         let (before, mut rest) = v.view_mut().split_at(Axis(1), i);
         let mut col = rest.column_mut(0);
-        let cutoff = col.norm_l2() * T::epsilon().sqrt();
+        let cutoff = col.norm_l2() * T::epsilon().sqrt().sqrt();
         for _ in 0..2 {
             let along_x = x.dot(&x.t().dot(&col));
             col -= &along_x;
@@ -257,7 +274,13 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let lambda_x = x.dot(&lambda_diag);
 
         // calculate residual AX - lambdaX
-        let r = &ax - &lambda_x;
+        let mut r = &ax - &lambda_x;
+        // only what lies in the orthogonal complement of the constraints can be reduced
+        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+            project_out(&mut r, |v| {
+                apply_constraints(v.view_mut(), cholesky_yy, y.view())
+            });
+        }
 
         // calculate L2 norm of error for every eigenvalue
         let residual_norms = r
@@ -300,19 +323,15 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let mut active_block_r = ndarray_mask(r.view(), &activemask);
         // apply preconditioner
         m(active_block_r.view_mut());
-        // apply constraints to the preconditioned residuals
-        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
-            apply_constraints(active_block_r.view_mut(), cholesky_yy, y.view());
-        }
-        // orthogonalize the preconditioned residual to x
-        // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
-        ndarray::linalg::general_mat_mul(
-            -A::one(),
-            &x,
-            &x.t().dot(&active_block_r),
-            A::one(),
-            &mut active_block_r,
-        );
+        project_out(&mut active_block_r, |v| {
+            // apply constraints to the preconditioned residuals
+            if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+                apply_constraints(v.view_mut(), cholesky_yy, y.view());
+            }
+            // orthogonalize the preconditioned residual to x
+            // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
+            ndarray::linalg::general_mat_mul(-A::one(), &x, &x.t().dot(v), A::one(), v);
+        });
 
         let r = match orthonormalize_independent(active_block_r.clone()) {
             Ok((r, _)) => r,
-- 
2.43.0


From 6ab45c15389a4699f28cb6289c1fadb909087de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:21 +0000
Subject: [PATCH 18/22] fix: limit cancellation in the Rayleigh-Ritz basis of
 LOBPCG

Chained near dependencies of the search directions compounded, so that f32 eigenvectors could lose
their orthonormality.
---
 src/lobpcg/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index d83be0a..26c4af7 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -29,7 +29,9 @@ fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>,
             v = &v - &span.dot(&span.t().dot(&b.dot(&v)));
         }
         let norm = v.dot(&b.dot(&v));
-        if norm > b[(i, i)] * A::epsilon().sqrt() {
+        // bound of the terms which cancel out in the norm
+        let terms = (&v * &v * b.diag()).sum();
+        if norm > terms * A::epsilon().sqrt() {
             basis.column_mut(size).assign(&(v / norm.sqrt()));
             size += 1;
         }
-- 
2.43.0


From a3af51e3855f40f02383adcf3c866e817a9d2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 19/22] fix: return eigenvalues of reversed 2x2 views in
 standard layout

---
 src/tridiagonal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tridiagonal.rs b/src/tridiagonal.rs
index 29148c5..66e3a74 100644
--- a/src/tridiagonal.rs
+++ b/src/tridiagonal.rs
@@ -95,7 +95,8 @@ impl<A: NdFloat, S: DataMut<Elem = A>> TridiagonalDecomp<A, S> {
     /// arrays
     pub fn into_diagonals(self) -> (Array1<A>, Array1<A>) {
         (
-            self.diag_matrix.diag().to_owned(),
+            // Not `to_owned`, which would preserve a negative stride
+            self.diag_matrix.diag().iter().copied().collect(),
             self.off_diagonal.mapv_into(A::abs),
         )
     }
-- 
2.43.0


From ed1ed6e6d2c59bb0bfd38cb5bdc925683fe88255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 20/22] fix: keep the orthonormalized LOBPCG residuals
 orthogonal

Orthonormalizing the projected residuals magnifies what is left of their
components along the constraints and the iterates, by up to the fourth root of
the machine epsilon, and the Rayleigh-Ritz basis magnifies it again. The
iterates could leave the complement of the constraints visibly. Project the
orthonormalized block once more.
---
 src/lobpcg/algorithm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 26c4af7..cdd10df 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -325,7 +325,7 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let mut active_block_r = ndarray_mask(r.view(), &activemask);
         // apply preconditioner
         m(active_block_r.view_mut());
-        project_out(&mut active_block_r, |v| {
+        let projection = |v: &mut Array2<A>| {
             // apply constraints to the preconditioned residuals
             if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
                 apply_constraints(v.view_mut(), cholesky_yy, y.view());
@@ -333,9 +333,10 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             // orthogonalize the preconditioned residual to x
             // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
             ndarray::linalg::general_mat_mul(-A::one(), &x, &x.t().dot(v), A::one(), v);
-        });
+        };
+        project_out(&mut active_block_r, projection);
 
-        let r = match orthonormalize_independent(active_block_r.clone()) {
+        let mut r = match orthonormalize_independent(active_block_r.clone()) {
             Ok((r, _)) => r,
             // linearly dependent residuals, leave out what is redundant
             Err(_) => {
@@ -343,6 +344,8 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
                 active_block_r
             }
         };
+        // the orthonormalization magnifies what the projection has left of its rounding errors
+        projection(&mut r);
 
         let ar = a(r.view());
 
-- 
2.43.0


From 7f0a51d13f7b95b759f7ea59a0288ab5860c8ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 21/22] fix: let the SVD of matrices with NaNs or infinities
 end

Off-diagonal elements that are NaN never became small, so the iteration did not
stop.
---
 src/svd.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index 99eba06..d184036 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -223,6 +223,14 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
     Ok((u, diag, vt))
 }
 
+/// Whether an off-diagonal element is taken as zero, given its diagonal neighbours. NaNs are taken as
+/// zero too: they would never become small.
+fn is_negligible<A: NdFloat>(off_diag: A, diag0: A, diag1: A, eps: A) -> bool {
+    let size = off_diag.abs();
+    let tol = eps * (diag0.abs() + diag1.abs());
+    size <= tol || size.is_nan() || tol.is_nan()
+}
+
 fn delimit_subproblem<A: NdFloat>(
     diag: &mut Array1<A>,
     off_diag: &mut Array1<A>,
@@ -236,9 +244,7 @@ fn delimit_subproblem<A: NdFloat>(
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(n).abs() + diag.at(m).abs())
-            {
+            if is_negligible(*off_diag.at(m), *diag.at(m), *diag.at(n), eps) {
                 *off_diag.atm(m) = A::zero();
             } else if diag.at(m).abs() <= eps {
                 *diag.atm(m) = A::zero();
@@ -266,7 +272,7 @@ fn delimit_subproblem<A: NdFloat>(
         let m = new_start - 1;
 
         unsafe {
-            if off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs()) {
+            if is_negligible(*off_diag.at(m), *diag.at(m), *diag.at(new_start), eps) {
                 *off_diag.atm(m) = A::zero();
                 break;
             }
-- 
2.43.0


From f2a8fb39487e8675fff7cfccdff54d25fd90bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 22/22] fix: detach shared arrays before writing to them in
 release builds

---
 src/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 85fd73a..211f857 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -39,6 +39,10 @@ impl<A, S: DataMut<Elem = A>, D: Dimension, I: NdIndex<D>> UncheckedIndexMut<I>
             self.get_mut(index).unwrap()
         }
         #[cfg(not(debug_assertions))]
-        self.uget_mut(index)
+        {
+            // unlike `get_mut`, `uget_mut` does not detach the array from data it shares
+            self.as_mut_ptr();
+            self.uget_mut(index)
+        }
     }
 }
-- 
2.43.0

