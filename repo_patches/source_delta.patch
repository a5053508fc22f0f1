From 2a5bb7ce36673e27eb9f54f85e3a7128afe74794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:31 +0000
Subject: [PATCH 01/19] fix: clear the right bits when replacing a letter of a
 tensor key

set_letter shifted its mask by the letter position instead of by the bit
position, so replacing any letter but the last corrupted its neighbours and
the basis iterator skipped and repeated keys from degree 3 on.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..1a14344 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From 3310f15faf0d33bfca5b88462fa3ce0ca833c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:32 +0000
Subject: [PATCH 02/19] fix: do not recurse for ever when displaying a tensor
 key

Display::fmt called itself; the comment says it should print what Debug prints.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 1a14344..20552c1 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From 319933e7975ffd0370184107af4a52411839dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 03/19] fix: concatenate the empty word with a word that fills
 all 64 bits

For alphabets of 2^31 letters or more a word of maximal length uses all 64
bits, and concatenating it to the empty word overflowed the shift.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 20552c1..cc01bed 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -160,7 +160,12 @@ impl<const NLetters: u32> TensorKey<NLetters> {
     {
         Self {
             size: self.size() + other.size(),
-            data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
+            data: if self.size() == 0 {
+                // The shift below could be by all 64 bits if other is a word of maximal length
+                other.data()
+            } else {
+                (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
+            }
         }
     }
 
-- 
2.43.0


From 1ca6cfd643f1a5b05f78b34f8702091424a65e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:35 +0000
Subject: [PATCH 04/19] fix: order tensor keys by length first

compare looked at the packed letters only, so (1) and (1, 1) compared equal
and (1, 1) was less than (2), against the order of the indices.
---
 src/free_tensor/tensor_basis/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..a4d788a 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -69,7 +69,10 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        match Ord::cmp(&lhs.size(), &rhs.size()) {
+            Ordering::Equal => Ord::cmp(&lhs.data(), &rhs.data()),
+            unequal => unequal
+        }
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From 68baf07dcef96c4439f9333b5e045d7431c9741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:36 +0000
Subject: [PATCH 05/19] fix: compute the start of a degree without dividing by
 NLETTERS - 1

The closed formula divided by zero for the one-letter alphabet, and its power
overflowed for degrees whose start is representable (31 letters, degree 13).
---
 src/free_tensor/tensor_basis/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index a4d788a..d07a992 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,7 +28,13 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
-        (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
+        let mut result = 0;
+        let mut i = 0;
+        while i < deg {
+            result = result * (NLETTERS as DimensionType) + 1;
+            i += 1;
+        }
+        result
     }
 
     pub(crate) const fn degree_range(deg: DegreeType) -> Range<DimensionType>
-- 
2.43.0


From d20bd4c4e3afab594cbc1c9add70be4c5cd78349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 06/19] fix: keep the tensor product inside its buffers

The unchecked slices assumed that both operands hold all coefficients of their
last degree and that the output is as long as the product. Neither is so for
empty vectors, for vectors that stop in the middle of a degree, and for the
product of two scalars, all of which read and wrote out of bounds.
---
 src/free_tensor/implementation/dense.rs | 26 ++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..ae5bd53 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -255,6 +255,24 @@ impl<'a, S, const NLETTERS: DegreeType> Algebra for DenseTensor<'a, S, NLETTERS>
 }
 */
 
+/// Copy a vector that stops in the middle of a degree (or has no coefficients at all), and pad the
+/// copy with zeros to the end of that degree.
+fn pad_to_degree<'vec, V, S, const NLETTERS: DegreeType>(arg: &V) -> Option<V>
+    where S: CoefficientField,
+          V: ResizeableDenseVector<'vec, BasisType=TensorBasis<NLETTERS>, ScalarType=S>
+             + VectorWithDegree<'vec>
+{
+    let dim = TensorBasis::<NLETTERS>::start_of_degree(arg.degree() + 1);
+    if arg.as_slice().len() < dim {
+        let mut result = arg.to_owned();
+        result.resize(dim);
+        Some(result)
+    } else {
+        None
+    }
+}
+
+
 impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     where S: CoefficientField,
           V: ResizeableDenseVector<'vec, BasisType=TensorBasis<NLETTERS>, ScalarType=S>
@@ -271,8 +289,10 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     {
         use tensor_mul_impl::dense_tensor_multiply_into_buffer;
 
-        let rhs_r = rhs.borrow();
-        let lhs_r = lhs.borrow();
+        let rhs_padded = pad_to_degree(rhs.borrow());
+        let rhs_r = rhs_padded.as_ref().unwrap_or(rhs.borrow());
+        let lhs_padded = pad_to_degree(lhs.borrow());
+        let lhs_r = lhs_padded.as_ref().unwrap_or(lhs.borrow());
 
         let lhs_deg = lhs_r.degree();
         let rhs_deg = rhs_r.degree();
@@ -282,7 +302,7 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
+        if self.as_slice().len() < TensorBasis::<NLETTERS>::start_of_degree(max_deg+1) {
             self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
         }
 
-- 
2.43.0


From 211abb21dc0867751f123f2d75c894be9ba36771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:21 +0000
Subject: [PATCH 07/19] fix: multiply in place by way of the product

multiply_into_impl subtracted degrees below zero, overwrote coefficients it
still had to read, dropped the constant term and wrote out of bounds. Build
the product with multiply_and_add_into_impl and assign it.
---
 src/free_tensor/implementation/dense.rs | 107 +-----------------------
 1 file changed, 4 insertions(+), 103 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index ae5bd53..88ab11c 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -78,19 +78,6 @@ mod tensor_mul_impl {
         }
     }
 
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
-        }
-    }
-
 }
 
 
@@ -342,99 +329,13 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        let mut result = Self::new();
+        result.multiply_and_add_into_impl(&*self, rhs, func, to_degree);
+        *self = result;
     }
 
 }
-- 
2.43.0


From cdc0d257b6703882b3b9dc04a0185338c5ffc147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:53 +0000
Subject: [PATCH 08/19] fix: divide in mul_rat_rdiv

It multiplied by its rational argument, so that exp and fmexp scaled the terms
of their series by factorials instead of dividing by them.
---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..fffd8a5 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From 425634d5e3c994f7c97e87b1b54b0882dfc10a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:54 +0000
Subject: [PATCH 09/19] fix: include the highest degree in exp, fmexp and log

The loops left out the term of degree MAX_DEGREE of each series.
---
 src/free_tensor/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index fffd8a5..af3f7c8 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, S::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
@@ -67,7 +67,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
-- 
2.43.0


From ae6c2b34118e6f6a7ee4a02fffa1e8e39e9af067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:55 +0000
Subject: [PATCH 10/19] fix: keep the product in log

The result of multiply was dropped, so that log returned a multiple of the
unit whatever its argument.
---
 src/free_tensor/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index af3f7c8..011c861 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -73,7 +73,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv.multiply_inplace(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From 9b50995a2f4f636186831a4b6647bd03e3916fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 11/19] fix: subtract in sub_scalar_divide when the key is
 present

The quotient is negated already; subtracting it added it.
---
 src/vector/traits/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..bdda918 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -57,7 +57,7 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
     {
         let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
-            <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
+            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
         } else {
             self.insert_single(key.borrow().clone(), sca);
         }
-- 
2.43.0


From 70f6e338e6c61a2570d6938ba543bf9154ba6df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 12/19] fix: forward get and get_mut of a wrapped vector to the
 vector inside

borrow() and borrow_mut() gave the wrapper itself, and the calls never ended.
The wrapped type is named through the wrapper, so that its lifetime follows
from the wrapper's.
---
 src/vector/implementation/deref_impl.rs | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..84e1852 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -6,31 +6,31 @@ use crate::vector::*;
 
 
 
-impl<'vec, U, V> Vector<'vec> for V
-    where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
+impl<'vec, V> Vector<'vec> for V
+    where V: 'vec + DerefMut + From<<V as Deref>::Target> + PartialEq,
           //  + IntoVectorIterator<'vec, U::KeyType, U::ScalarType>,
-          U: Vector<'vec>
+          <V as Deref>::Target: Vector<'vec>
 {
-    type BasisType = U::BasisType;
-    type KeyType = U::KeyType;
-    type ScalarType = U::ScalarType;
-    type RationalType = U::RationalType; 
+    type BasisType = <V::Target as Vector<'vec>>::BasisType;
+    type KeyType = <V::Target as Vector<'vec>>::KeyType;
+    type ScalarType = <V::Target as Vector<'vec>>::ScalarType;
+    type RationalType = <V::Target as Vector<'vec>>::RationalType;
 
     fn new() -> Self
     {
-        Self::from(U::new())
+        Self::from(V::Target::new())
     }
 
     fn from_key(key: impl Into<Self::KeyType>) -> Self {
-        Self::from(U::from_key(key))
+        Self::from(V::Target::from_key(key))
     }
 
     fn from_key_scalar(key: impl Into<Self::KeyType>, scalar: impl Into<Self::ScalarType>) -> Self {
-        Self::from(U::from_key_scalar(key, scalar))
+        Self::from(V::Target::from_key_scalar(key, scalar))
     }
 
     fn from_iterator(iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) -> Self {
-        Self::from(U::from_iterator(iterator))
+        Self::from(V::Target::from_iterator(iterator))
     }
 
     fn swap(&mut self, mut other: impl BorrowMut<Self>) {
@@ -46,11 +46,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        self.deref().get(key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        self.deref_mut().get_mut(key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From 78aa4ce09944cbbc0718e1c8acaab0eb2db2437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 13/19] fix: insert the value in insert_single of a dense
 vector

The method did nothing, and add_scalar_multiply and its siblings silently lost
what they add at keys beyond the end of the vector.
---
 src/vector/implementation/simple_dense_vector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..826c78e 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -241,7 +241,10 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     {
         let idx = B::key_to_index(key);
 
-
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
+        self.as_mut_slice()[idx] = value.into();
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-- 
2.43.0


From 3d15cd9a0c228ddcbdf3e12a3acfdba471c409e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:54 +0000
Subject: [PATCH 14/19] fix: do not recurse for ever in the Moebius function

The Moebius function of a squarefree composite called itself with the same
argument, which overflowed the stack from degree 6 on.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..e38e537 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            mobius(divisor) * mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From 9090ade6d3a2691c406379b459b228731aaa669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:55 +0000
Subject: [PATCH 15/19] fix: divide the sum in Witt's formula, not its terms

The terms need not be divisible by the level; rounding each of them gave
981706807 for 2 letters at level 35 instead of 981706806.
---
 src/lie/lie_basis/degree_range_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index e38e537..ad8c488 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -51,8 +51,7 @@ mod compute {
     ) -> SignedDimensionType
     {
         mobius(divisor) *
-            (width as SignedDimensionType).pow((level/divisor) as u32) /
-            (level as SignedDimensionType)
+            (width as SignedDimensionType).pow((level/divisor) as u32)
     }
 
     const fn hall_set_level_size_impl(
@@ -81,7 +80,7 @@ mod compute {
 
     const fn hall_set_level_size(width: DimensionType, depth: DimensionType) -> DimensionType
     {
-        hall_set_level_size_impl(width, depth, 1) as DimensionType
+        (hall_set_level_size_impl(width, depth, 1) / (depth as SignedDimensionType)) as DimensionType
     }
 
     const fn hall_set_size_impl(
-- 
2.43.0


From ad7b92ee00d43de7d9d76a66a0b1e9839d121f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 16/19] fix: find the degree of the last key of each degree

Keys count from 1, so the map holds the last key of each degree; find_deg put
that key in the next degree, and the very last one past the end of the map.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index ad8c488..e6f6e72 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -195,7 +195,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From 1f334953316bffff48e67003e8c32ae60bf14f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:57 +0000
Subject: [PATCH 17/19] fix: do not deadlock on the first use of a Hall set

The read lock on the cache was held while waiting for the write lock. Of two
threads that both missed the cache, the later one also replaced the Hall set
that the earlier one had returned.
---
 src/lie/lie_basis/hall_set.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..f92504e 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -249,10 +249,14 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
+    // The read lock has to be released before the cache is locked for writing below
+    let cached = HALL_SET_CACHE.read()
         .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
+        .get(&NLETTERS)
+        .cloned();
+
+    if let Some(val) = cached {
+        val
     } else {
         let mut inner = HallSetInner::<NLETTERS>::new();
 
@@ -264,8 +268,9 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
         let new_hs = HallSetObject::new(inner);
         HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+            .entry(NLETTERS)
+            .or_insert(new_hs)
+            .clone()
     }
 
 }
-- 
2.43.0


From 2c1c7fbd9e18d40952f987be37c6cf49029d0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:20 +0000
Subject: [PATCH 18/19] Guarded re-exports of the Lie basis for verification

---
 src/lie/lie_basis/hall_key.rs | 17 ++++++++++++++++-
 src/lie/lie_basis/mod.rs      |  7 +++++++
 src/lie/mod.rs                |  6 +++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/lie/lie_basis/hall_key.rs b/src/lie/lie_basis/hall_key.rs
index 98bb6a8..6fcbb35 100644
--- a/src/lie/lie_basis/hall_key.rs
+++ b/src/lie/lie_basis/hall_key.rs
@@ -116,4 +116,19 @@ impl<const NLETTERS: DegreeType> Display for HallKey<NLETTERS> {
             write!(f, "[{}, {}]", self.get_lparent(), self.get_rparent())
         }
     }
-}
\ No newline at end of file
+}
+
+#[cfg(rustyalgebra_verif)]
+impl<const NLETTERS: DegreeType> HallKey<NLETTERS> {
+
+    pub fn verif_from_fields(key: DataType, lparent: DataType, rparent: DataType, size: DegreeType) -> Self
+    {
+        Self(Self::make_key_data(key, lparent, rparent, size))
+    }
+
+    pub fn verif_get_key(&self) -> LetterType
+    {
+        self.get_key()
+    }
+
+}
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index dc0456e..57edbfa 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -11,3 +11,10 @@ use hall_set::{get_hall_set};
 
 
 mod hall_key;
+
+#[cfg(rustyalgebra_verif)]
+pub mod verif {
+    pub use super::degree_range_map::DegreeRangeMap;
+    pub use super::hall_key::HallKey;
+    pub use super::hall_set::{get_hall_set, HallSet};
+}
diff --git a/src/lie/mod.rs b/src/lie/mod.rs
index c29d3c4..c04a1e4 100644
--- a/src/lie/mod.rs
+++ b/src/lie/mod.rs
@@ -1 +1,5 @@
-mod lie_basis;
\ No newline at end of file
+mod lie_basis;
+#[cfg(rustyalgebra_verif)]
+pub mod verif {
+    pub use super::lie_basis::verif::*;
+}
-- 
2.43.0


From b5097c970bc534a0b9d73d6216114363192d7015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:42 +0000
Subject: [PATCH 19/19] Guarded access to Hall sets for verification

---
 src/lie/lie_basis/hall_set.rs | 16 ++++++++++++++++
 src/lie/lie_basis/mod.rs      |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index f92504e..5498840 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -276,6 +276,22 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 }
 
 
+#[cfg(rustyalgebra_verif)]
+impl HallSetObject {
+    /// Whether both are handles of one Hall set
+    pub fn verif_same(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.0, &other.0)
+    }
+}
+
+/// A Hall set that holds the given keys
+#[cfg(rustyalgebra_verif)]
+pub fn verif_hall_set<const NLETTERS: DegreeType>(set: Vec<(LetterType, LetterType)>) -> HallSetObject {
+    let mut inner = HallSetInner::<NLETTERS>::new();
+    inner.set = set;
+    HallSetObject::new(inner)
+}
+
 
 
 #[cfg(test)]
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index 57edbfa..aa2f58c 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -16,5 +16,5 @@ mod hall_key;
 pub mod verif {
     pub use super::degree_range_map::DegreeRangeMap;
     pub use super::hall_key::HallKey;
-    pub use super::hall_set::{get_hall_set, HallSet};
+    pub use super::hall_set::{get_hall_set, verif_hall_set, HallSet, HallSetError};
 }
-- 
2.43.0

