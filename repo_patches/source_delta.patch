From ec1489dfb9e72c5ded7796098a33dec8e301a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:57 +0000
Subject: [PATCH 01/17] fix: return zero for the first out-of-range index of a
 dense multivector

get_by_idx(2^dim) panicked while every other out-of-range index gave zero.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 4773bb6..23754d6 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -41,7 +41,7 @@ where
 
     #[inline(always)]
     fn get_by_idx(&self, idx: IndexType) -> T {
-        if idx > self.array.len() {
+        if idx >= self.array.len() {
             return T::zero();
         }
         self.array[idx].clone()
-- 
2.43.0


From 96e69ebed0c9849e36f26d417f71dda61baa411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:57 +0000
Subject: [PATCH 02/17] fix: do not report invertible matrices as singular

A zero below the pivot on the diagonal only means that a row swap is needed later.
The pivot search already detects matrices that are really singular.
---
 src/fftrepr/matrix.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index 96cb73d..feefaf4 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -66,9 +66,6 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
                     return None;
                 }
             }
-            if w[(j, j)].is_zero() {
-                return None;
-            }
         }
     }
     // To diagonal
-- 
2.43.0


From 947835cd651655c1025908ab6b0b3300a9fc1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:57 +0000
Subject: [PATCH 03/17] fix: return InvalidShape from iclifft_into for a wrong
 destination length

A destination that does not match the matrix caused a panic.
---
 src/clifft/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/clifft/mod.rs b/src/clifft/mod.rs
index 219671c..2db9481 100644
--- a/src/clifft/mod.rs
+++ b/src/clifft/mod.rs
@@ -298,6 +298,9 @@ pub fn iclifft_into(
     matrix: ArrayView2<Complex64>,
     mut dest: ArrayViewMut1<Complex64>,
 ) -> Result<(), ClError> {
+    if dest.len() != matrix.len() {
+        return Err(ClError::InvalidShape);
+    }
     iclifft_nn_into(matrix, dest.view_mut())?;
 
     // Multiply imaginary basis vectors of Cl(m, m) by -i to produce Cl(2m) multivector
-- 
2.43.0


From 541512429b1f7c49d2fb44d63e38687c31ce0a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:57 +0000
Subject: [PATCH 04/17] fix: keep the PGA point at the origin finite

The point was divided by the distance to the origin, which is zero there.
Normalize by the magnitude of the homogeneous coordinates instead.
---
 src/pga.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pga.rs b/src/pga.rs
index c2c1e79..2d60670 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -23,8 +23,8 @@ where
 {
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let mut coords: Vec<f64> = coords.into_iter().collect();
-        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         coords.push(f64::one());
+        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
         let p = Self::from_vector(coords)?.dual();
         Ok(p / mag)
     }
-- 
2.43.0


From 21c5ef2dd57ac9febba904dee77271cb4a97eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:57 +0000
Subject: [PATCH 05/17] fix: reject PGA translations with a wrong number of
 coordinates

One extra coordinate was silently added to the null vector of the motor.
---
 src/pga.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pga.rs b/src/pga.rs
index 2d60670..7956d8d 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -37,6 +37,10 @@ where
     }
 
     fn pga_translation(direction: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
+        let direction: Vec<f64> = direction.into_iter().collect();
+        if direction.len() != SPC_DIM {
+            return Err(ClError::InvalidShape);
+        }
         let e_idx = A::proj_mask();
         let bivec = Self::from_indexed_iter(
             direction
-- 
2.43.0


From 10d14bb23da247548da62ca617311965ced03104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:36 +0000
Subject: [PATCH 06/17] fix: scale exp by a norm that bounds every power

The Taylor series is cut off after about 18 terms. That is only enough when the
powers of the scaled argument do not grow. Single coefficients and the magnitude do
not bound them, and the exponent of dense multivectors was off by up to 45%.
---
 src/fftrepr/mod.rs |  9 ++++-----
 src/lib.rs         | 11 +++++------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 25f0fb5..07268af 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -106,13 +106,12 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
+        // Ensure that the sum of the elements in every row is below 1
+        // so that no power of the representation blows up
         let mut max_c: f64 = 1.0;
-        for (_, ci) in self.arr.indexed_iter() {
-            max_c = f64::max(ci.norm(), max_c);
+        for row in self.arr.axis_iter(Axis(1)) {
+            max_c = f64::max(row.iter().map(|c| c.norm()).sum(), max_c);
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
         max_c = max_c.ceil();
         let int_pow = max_c as usize;
         let normalized_self = self / max_c;
diff --git a/src/lib.rs b/src/lib.rs
index a8a5840..4265b4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -302,14 +302,13 @@ where
         let mut coeff = 1.0;
         let mut i = 1;
 
-        // Ensure that the magnitude and all the coefficients are below 1
-        // so that the series doesn't blow up
-        let mut max_c: f64 = 1.0;
+        // Ensure that the sum of the coefficients is below 1
+        // so that no power of the multivector blows up
+        let mut max_c: f64 = 0.0;
         for (_, ci) in self.coeff_enumerate() {
-            max_c = f64::max(ci.norm(), max_c);
+            max_c += ci.norm();
         }
-        max_c = max_c.max(self.mag2().norm().sqrt());
-        max_c = max_c.ceil();
+        max_c = max_c.max(1.0).ceil();
         let int_pow = max_c as usize;
         let inv_max_c = T::from(1.0 / max_c);
         let normalized_mv = self * &inv_max_c;
-- 
2.43.0


From 22e073b232cd5ef4e774cdb33485b3f6c1b500ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:36 +0000
Subject: [PATCH 07/17] fix: reject algebras whose number of blades does not
 fit the index type

With 64 generators the blade count overflows, and creating any multivector panicked.
---
 src/algebra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra.rs b/src/algebra.rs
index f372cef..67c4ad5 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -395,7 +395,7 @@ macro_rules! impl_algebra_base {
         }
         impl $crate::algebra::ClBasis<{$crate::count_items!($($signature),+)}> for $name {}
         // Limit the algebra size to fit the IndexType
-        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} <= 8*size_of::<$crate::types::IndexType>());
+        $crate::algebra::const_assert!({$crate::count_items!($($signature),+)} < 8*size_of::<$crate::types::IndexType>());
         // Optional traits implementations
         $crate::impl_split_signature!($name, $($signature),+);
         $crate::impl_non_degenerate!($name, $($signature),+);
-- 
2.43.0


From 95ae1e639174f67f2690b6a9f4a07183722c4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:36 +0000
Subject: [PATCH 08/17] fix: make the generator names optional for public
 algebras too

The documentation calls the names optional, but they could be left out only for
private types.
---
 src/algebra.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algebra.rs b/src/algebra.rs
index 67c4ad5..7c881a0 100644
--- a/src/algebra.rs
+++ b/src/algebra.rs
@@ -446,6 +446,13 @@ macro_rules! declare_algebra {
     ($name:ident, [$($signature:tt),+], [$($axes:literal),*]) => {
         $crate::declare_algebra!(pub(self) $name, [$($signature),+], [$($axes),*]);
     };
+    // Public and custom visibility types with automatic names for the generators
+    (pub $name:ident, [$($signature:tt),+]) => {
+        $crate::declare_algebra!(pub $name, [$($signature),+], []);
+    };
+    (pub($v:ident) $name:ident, [$($signature:tt),+]) => {
+        $crate::declare_algebra!(pub($v) $name, [$($signature),+], []);
+    };
     // Private type with automatic names for the generators
     ($name:ident, [$($signature:tt),+]) => {
         $crate::declare_algebra!($name, [$($signature),+], []);
-- 
2.43.0


From 53e4775b960e42464ba5318be5779543dfd4f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:39 +0000
Subject: [PATCH 09/17] fix: compute the sparse index limit in the index type

The blade count was shifted as a 32-bit integer. Sparse multivectors panicked with
32 or more generators, and the index limit was wrong with 31.
---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index 23754d6..f0a0620 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -136,7 +136,7 @@ where
     fn new(dim: usize) -> Self {
         SparseStorage {
             dim,
-            size: (1 << dim) as IndexType,
+            size: 1 << dim,
             coeffs: HashMap::new(),
         }
     }
-- 
2.43.0


From 0f691a0980acb1ed1c01849c766a71423ef88084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:55 +0000
Subject: [PATCH 10/17] fix: keep inverse accurate for large coefficients

Back substitution also ran over columns left of the pivot. They hold rounding
residue proportional to the size of the coefficients, which was subtracted from
the unit pivots, so the inverse of a large multivector was wrong.
---
 src/fftrepr/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fftrepr/matrix.rs b/src/fftrepr/matrix.rs
index feefaf4..39a7e34 100644
--- a/src/fftrepr/matrix.rs
+++ b/src/fftrepr/matrix.rs
@@ -73,7 +73,8 @@ pub(crate) fn matrix_inv<T: DivRing + Clone + Norm>(
         for j in (0..i).rev() {
             // Accommodate for non-commutative T, such as quaternions.
             let coeff = T::one().ref_div(&w[(i, i)]).ref_mul(&w[(j, i)]);
-            for m in j..2 * n {
+            // The columns before i are already eliminated in the i-th row
+            for m in i..2 * n {
                 w[(j, m)] = w[(j, m)].ref_sub(&coeff.ref_mul(&w[(i, m)]));
             }
         }
-- 
2.43.0


From ae35d08dd5fb57d853ca9dc0772872701c3ed776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:09 +0000
Subject: [PATCH 11/17] fix: parenthesize nested coefficients that get a sign
 in alternate format

---
 src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4265b4b..8838761 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -531,7 +531,7 @@ where
 }
 
 macro_rules! impl_formatting {
-    ($fmt_trait:ident, $sign_checker_fmt:literal) => {
+    ($fmt_trait:ident, $sign_checker_fmt:literal, $alt_sign_checker_fmt:literal) => {
         impl<T, A, Storage> $fmt_trait for MultivectorBase<T, A, Storage>
         where
             T: Ring + Clone + $fmt_trait,
@@ -557,7 +557,11 @@ macro_rules! impl_formatting {
                     let inner_sign = f.sign_plus() || {
                         // This formats any coeff twice,
                         // but it seems that there is no easy way to pass the flags down the line
-                        let coeff_str = format!($sign_checker_fmt, displayed_coeff);
+                        let coeff_str = if f.alternate() {
+                            format!($alt_sign_checker_fmt, displayed_coeff)
+                        } else {
+                            format!($sign_checker_fmt, displayed_coeff)
+                        };
                         coeff_str.contains(['+', '-'])
                     };
                     if inner_sign {
@@ -586,9 +590,9 @@ macro_rules! impl_formatting {
     };
 }
 
-impl_formatting!(Display, "{}");
-impl_formatting!(LowerExp, "{:e}");
-impl_formatting!(UpperExp, "{:E}");
+impl_formatting!(Display, "{}", "{:#}");
+impl_formatting!(LowerExp, "{:e}", "{:#e}");
+impl_formatting!(UpperExp, "{:E}", "{:#E}");
 
 impl<T, A, Storage> Zero for MultivectorBase<T, A, Storage>
 where
-- 
2.43.0


From 8d217f30b3776c8ee50c0ac406c794cea703cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:40:58 +0000
Subject: [PATCH 12/17] fix: keep inverse accurate for very large and very
 small coefficients

---
 src/fftrepr/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fftrepr/mod.rs b/src/fftrepr/mod.rs
index 07268af..af802f9 100644
--- a/src/fftrepr/mod.rs
+++ b/src/fftrepr/mod.rs
@@ -169,7 +169,15 @@ where
     where
         A: NonDegenerate,
     {
-        let ret_arr = matrix::matrix_inv(&self.arr.index_axis(Axis(0), 0))?;
+        let arr = self.arr.index_axis(Axis(0), 0);
+        // Keep the intermediate values representable. Scaling by a power of two is exact.
+        let norm = arr.fold(0., |n: f64, c| n.max(c.re.abs()).max(c.im.abs()));
+        let scale = if norm.is_normal() {
+            norm.log2().floor().exp2()
+        } else {
+            1.
+        };
+        let ret_arr = matrix::matrix_inv(&arr.mapv(|c| c / scale).view())? / scale;
         let (m, n) = ret_arr.dim();
         Some(Self::from_array3_unchecked(
             ret_arr.into_shape_clone([1, m, n]).ok()?,
-- 
2.43.0


From 6cefe89c415dbd8dabfc0297a3b116871721636c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:40:58 +0000
Subject: [PATCH 13/17] fix: normalize points and hyperplanes without overflow
 or underflow

---
 src/pga.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pga.rs b/src/pga.rs
index 7956d8d..4555307 100644
--- a/src/pga.rs
+++ b/src/pga.rs
@@ -24,14 +24,14 @@ where
     fn pga_point(coords: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let mut coords: Vec<f64> = coords.into_iter().collect();
         coords.push(f64::one());
-        let mag = coords.iter().map(|c| c * c).sum::<f64>().sqrt();
+        let mag = coords.iter().fold(0., |mag: f64, c| mag.hypot(*c));
         let p = Self::from_vector(coords)?.dual();
         Ok(p / mag)
     }
 
     fn pga_hyperplane(equation_coeffs: impl IntoIterator<Item = f64>) -> Result<Self, ClError> {
         let ec: Vec<f64> = equation_coeffs.into_iter().collect();
-        let mag = ec.iter().map(|c| c * c).sum::<f64>().sqrt();
+        let mag = ec.iter().fold(0., |mag: f64, c| mag.hypot(*c));
         let p = Self::from_vector(ec)?;
         Ok(p / mag)
     }
-- 
2.43.0


From c46b9e1064844c96d8ca842ef26431b1369e5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:41:11 +0000
Subject: [PATCH 14/17] fix: compare grades of sparse multivectors without
 truncation

---
 src/coeff_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coeff_storage.rs b/src/coeff_storage.rs
index f0a0620..290ecd4 100644
--- a/src/coeff_storage.rs
+++ b/src/coeff_storage.rs
@@ -174,7 +174,7 @@ where
         T: 'a,
     {
         self.coeff_enumerate()
-            .filter(move |(idx, _)| idx.count_ones() == (grade as u32))
+            .filter(move |(idx, _)| idx.count_ones() as usize == grade)
     }
 
     fn add(&self, rhs: &Self) -> Self {
-- 
2.43.0


From 727feeb4518d91849531f3f58275006449b2123f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:41:11 +0000
Subject: [PATCH 15/17] fix: grade iterator is empty for any grade above the
 dimension

---
 src/index_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index_utils.rs b/src/index_utils.rs
index af571f6..c80c7c1 100644
--- a/src/index_utils.rs
+++ b/src/index_utils.rs
@@ -57,7 +57,8 @@ impl std::iter::Iterator for GradeIter {
  */
 pub fn grade_iter(len: usize, weight: usize) -> GradeIter {
     GradeIter {
-        weight: weight,
+        // any weight above len gives an empty iterator
+        weight: weight.min(len + 1),
         pos: (len as isize) - 1,
         subiter: None,
     }
-- 
2.43.0


From 4b19a7952df09d3453d60caa454007bf00128b66 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 02:41:11 +0000
Subject: [PATCH 16/17] fix: drop coefficients that a filter predicate sets to
 zero

---
 src/mv_sparse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mv_sparse.rs b/src/mv_sparse.rs
index 9374c66..f39d563 100644
--- a/src/mv_sparse.rs
+++ b/src/mv_sparse.rs
@@ -45,11 +45,14 @@ where
     }
 
     /// Drop all the coefficients for which the predicate is false.
-    pub fn filter_inplace<F>(&mut self, f: F)
+    pub fn filter_inplace<F>(&mut self, mut f: F)
     where
         F: FnMut(&IndexType, &mut T) -> bool,
     {
-        self.coeffs.coeffs.retain(f);
+        // The predicate may change the coefficients, zeros are not stored
+        self.coeffs
+            .coeffs
+            .retain(|idx, c| f(idx, c) && !c.is_zero());
     }
 
     /// Consume self and return it without all the coefficients for which the predicate is false.
-- 
2.43.0


From 4eb80eeba8f1398bc0b3e983cda906618d4b43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:04 +0000
Subject: [PATCH 17/17] fix: compute the quaternion norm without overflow or
 underflow

---
 src/quaternion.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 12eec00..98b9749 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -147,11 +147,12 @@ where
     T: DivRing + Clone + Copy + Norm,
 {
     fn norm(&self) -> f64 {
-        let mut s = 0.;
+        let mut s: f64 = 0.;
         for i in 0..4 {
-            s += self.get_by_idx(i).norm().powi(2);
+            // The squares may be out of range even if the norm is not
+            s = s.hypot(self.get_by_idx(i).norm());
         }
-        s.sqrt()
+        s
     }
 }
 
-- 
2.43.0

