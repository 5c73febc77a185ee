From 1e4b0342d2b72df21adc35fa975961e4f9b208d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:02 +0000
Subject: [PATCH 01/22] fix: Display of TensorKey recursed into itself and
 overflowed the stack

---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8d01534..8303cef 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -47,7 +47,7 @@ impl<const NLETTERS: u32> Debug for TensorKey<NLETTERS> {
 impl<const NLETTERS: u32> Display for TensorKey<NLETTERS> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         // In this case, the displayed key should be the same as the debug output
-        Display::fmt(self, f)
+        Debug::fmt(self, f)
     }
 }
 
-- 
2.43.0


From 3ca25e1720efe391a6ff20419cb7d484585e7f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:02 +0000
Subject: [PATCH 02/22] fix: TensorBasis::compare ignored word length

Words with leading 1s compared Equal to shorter words, e.g. (1) and (1,1).
---
 src/free_tensor/tensor_basis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 6928fdf..16d2d23 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -69,7 +69,7 @@ impl<const NLETTERS: DegreeType> OrderedBasis for TensorBasis<NLETTERS> {
     type KeyIterator = TensorBasisIterator<NLETTERS>;
 
     fn compare(lhs: &Self::KeyType, rhs: &Self::KeyType) -> Ordering {
-        Ord::cmp(&lhs.data(), &rhs.data())
+        Ord::cmp(&(lhs.size(), lhs.data()), &(rhs.size(), rhs.data()))
     }
 
     fn iter_keys() -> Self::KeyIterator {
-- 
2.43.0


From 5c8ca76023b80a9248ce3abc53cb2b507552f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:02 +0000
Subject: [PATCH 03/22] fix: TensorKey::set_letter cleared the wrong bits

The mask was shifted by the position instead of the bit offset of the letter,
so key iteration went wrong from the first carry out of the second letter.
---
 src/free_tensor/tensor_basis/tensor_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 8303cef..20552c1 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -112,7 +112,7 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if letter >= self.size() {
             panic!("Index {} exceeds length of word", letter);
         }
-        let mask = !make_mask(Self::bits_per_letter(), letter);
+        let mask = !make_mask(Self::bits_per_letter(), Self::bits_per_letter()*letter);
         let mut data = self.data();
         data &= mask;
         data += (new_val as u64 - 1) << Self::bits_per_letter()*letter;
-- 
2.43.0


From f0f7d0dc6db9c575143d566f978761812951c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:02 +0000
Subject: [PATCH 04/22] fix: TensorBasis::start_of_degree overflowed at the top
 degree and divided by zero for width 1

---
 src/free_tensor/tensor_basis/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/mod.rs b/src/free_tensor/tensor_basis/mod.rs
index 16d2d23..ead5b37 100644
--- a/src/free_tensor/tensor_basis/mod.rs
+++ b/src/free_tensor/tensor_basis/mod.rs
@@ -28,7 +28,14 @@ impl<const NLETTERS: DegreeType> TensorBasis<NLETTERS> {
 
     pub(crate) const fn start_of_degree(deg: DegreeType) -> DimensionType
     {
-        (((NLETTERS as DimensionType).pow(deg) - 1) / (NLETTERS as DimensionType - 1)) as DimensionType
+        // 1 + N + ... + N^(deg-1), without forming N^deg, which need not fit.
+        let mut result: DimensionType = 0;
+        let mut i = 0;
+        while i < deg {
+            result = result * (NLETTERS as DimensionType) + 1;
+            i += 1;
+        }
+        result
     }
 
     pub(crate) const fn degree_range(deg: DegreeType) -> Range<DimensionType>
-- 
2.43.0


From dcecc99cb97a54d4eb327ee2d8b7ff95df596dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:02 +0000
Subject: [PATCH 05/22] fix: TensorKey::concatenate silently produced a wrong
 word past the maximum depth

---
 src/free_tensor/tensor_basis/tensor_key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 20552c1..423f467 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -158,6 +158,9 @@ impl<const NLetters: u32> TensorKey<NLetters> {
 
     pub const fn concatenate(&self, other: &Self) -> Self
     {
+        if self.size() + other.size() > Self::max_depth() {
+            panic!("Number of letters exceeds maximum depth");
+        }
         Self {
             size: self.size() + other.size(),
             data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
-- 
2.43.0


From b5e1ed52b5aa734fa0ea985113bef340cf2b0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 06/22] fix: get and get_mut on wrapped vectors recursed into
 themselves

---
 src/vector/implementation/deref_impl.rs | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/vector/implementation/deref_impl.rs b/src/vector/implementation/deref_impl.rs
index bb0aaae..185eaa7 100644
--- a/src/vector/implementation/deref_impl.rs
+++ b/src/vector/implementation/deref_impl.rs
@@ -6,31 +6,31 @@ use crate::vector::*;
 
 
 
-impl<'vec, U, V> Vector<'vec> for V
-    where V: 'vec + Deref<Target=U> + DerefMut<Target=U> + From<U> + PartialEq,
+impl<'vec, V> Vector<'vec> for V
+    where V: 'vec + Deref + DerefMut + From<<V as Deref>::Target> + PartialEq,
           //  + IntoVectorIterator<'vec, U::KeyType, U::ScalarType>,
-          U: Vector<'vec>
+          <V as Deref>::Target: Vector<'vec>
 {
-    type BasisType = U::BasisType;
-    type KeyType = U::KeyType;
-    type ScalarType = U::ScalarType;
-    type RationalType = U::RationalType; 
+    type BasisType = <V::Target as Vector<'vec>>::BasisType;
+    type KeyType = <V::Target as Vector<'vec>>::KeyType;
+    type ScalarType = <V::Target as Vector<'vec>>::ScalarType;
+    type RationalType = <V::Target as Vector<'vec>>::RationalType;
 
     fn new() -> Self
     {
-        Self::from(U::new())
+        Self::from(V::Target::new())
     }
 
     fn from_key(key: impl Into<Self::KeyType>) -> Self {
-        Self::from(U::from_key(key))
+        Self::from(V::Target::from_key(key))
     }
 
     fn from_key_scalar(key: impl Into<Self::KeyType>, scalar: impl Into<Self::ScalarType>) -> Self {
-        Self::from(U::from_key_scalar(key, scalar))
+        Self::from(V::Target::from_key_scalar(key, scalar))
     }
 
     fn from_iterator(iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) -> Self {
-        Self::from(U::from_iterator(iterator))
+        Self::from(V::Target::from_iterator(iterator))
     }
 
     fn swap(&mut self, mut other: impl BorrowMut<Self>) {
@@ -46,11 +46,11 @@ impl<'vec, U, V> Vector<'vec> for V
     }
 
     fn get(&self, key: impl Borrow<Self::KeyType>) -> Option<&Self::ScalarType> {
-        self.borrow().get(key)
+        self.deref().get(key)
     }
 
     fn get_mut(&mut self, key: impl Borrow<Self::KeyType>) -> Option<&mut Self::ScalarType> {
-        self.borrow_mut().get_mut(key)
+        self.deref_mut().get_mut(key)
     }
 
     fn insert_single(&mut self, key: &Self::KeyType, value: impl Into<Self::ScalarType>) {
-- 
2.43.0


From da35fcb8698eeb15b5ce0c4f33117f71679ff12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 07/22] fix: insert_single on dense vectors discarded the value

---
 src/vector/implementation/simple_dense_vector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 2d74d32..826c78e 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -241,7 +241,10 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     {
         let idx = B::key_to_index(key);
 
-
+        if idx >= self.size() {
+            self.resize(B::vector_dimension_for_key(key));
+        }
+        self.as_mut_slice()[idx] = value.into();
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-- 
2.43.0


From 35a6a17046ddb0097383bfb51064ea3fbe124d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 08/22] fix: Vector::insert panicked on dense and sparse
 vectors

---
 src/vector/implementation/simple_dense_vector.rs  | 4 +++-
 src/vector/implementation/simple_sparse_vector.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 826c78e..c76332e 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -248,7 +248,9 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, value) in iterator {
+            self.insert_single(&key, value);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>)
diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 9141516..8f3a355 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -132,7 +132,9 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn insert(&mut self, iterator: impl IntoIterator<Item=(Self::KeyType, Self::ScalarType)>) {
-        todo!()
+        for (key, value) in iterator {
+            self.insert_single(&key, value);
+        }
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-- 
2.43.0


From a20d0acf040e8013914095a2d1be1cbd3f230904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 09/22] fix: copying, swapping and erasing panicked on sparse
 vectors

Without to_owned every value-returning operation (add, sub, uminus, ...) panicked.
---
 src/vector/implementation/simple_sparse_vector.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index 8f3a355..ff9de8b 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -107,12 +107,12 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
 
-    fn swap(&mut self, other: impl BorrowMut<Self>) {
-        todo!()
+    fn swap(&mut self, mut other: impl BorrowMut<Self>) {
+        std::mem::swap(&mut self.0, &mut other.borrow_mut().0);
     }
 
     fn to_owned(&self) -> Self {
-        todo!()
+        Self(self.0.clone(), PhantomData)
     }
 
     fn clear(&mut self) {
@@ -138,7 +138,7 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
     }
 
     fn erase(&mut self, key: impl Borrow<Self::KeyType>) {
-        todo!()
+        self.0.remove(key.borrow());
     }
 
     fn uminus_inplace(&mut self) -> &mut Self {
-- 
2.43.0


From c718f2bf7da0a2ac75b03475932dd48fce06668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 10/22] fix: sparse from_iterator lost all but the last value
 of a repeated key

The dense implementation of the same method accumulates.
---
 src/vector/implementation/simple_sparse_vector.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vector/implementation/simple_sparse_vector.rs b/src/vector/implementation/simple_sparse_vector.rs
index ff9de8b..b9ea3c8 100644
--- a/src/vector/implementation/simple_sparse_vector.rs
+++ b/src/vector/implementation/simple_sparse_vector.rs
@@ -102,7 +102,10 @@ impl<'vec, 'a: 'vec, B, S, K> Vector<'vec> for SimpleSparseVector<'a, B, S, K>
         let mut inner = HashMap::<K, S>::new();
 
         for (key, val) in iterator.into_iter() {
-            inner.insert(key, val);
+            match inner.get_mut(&key) {
+                Some(v) => { S::add_inplace(v, &val); },
+                None => { inner.insert(key, val); }
+            };
         }
         SimpleSparseVector::<B, S, K>(inner, PhantomData)
     }
-- 
2.43.0


From 0361d876eb341822c7c045ed2ab2d2b153d68199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 11/22] fix: sub_scalar_divide added instead of subtracting for
 stored keys

---
 src/vector/traits/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector/traits/extension.rs b/src/vector/traits/extension.rs
index 307553c..bdda918 100644
--- a/src/vector/traits/extension.rs
+++ b/src/vector/traits/extension.rs
@@ -57,7 +57,7 @@ pub trait VectorKeyExt<'vec> : Vector<'vec> {
     {
         let sca = <Self::ScalarType as CoefficientField>::div(&Self::ScalarType::MONE, &val.into());
         if let Some(v) = self.get_mut(key.borrow()) {
-            <Self::ScalarType as CoefficientField>::sub_inplace(v, &sca);
+            <Self::ScalarType as CoefficientField>::add_inplace(v, &sca);
         } else {
             self.insert_single(key.borrow().clone(), sca);
         }
-- 
2.43.0


From 6339f24bcb5e6d4ddb5e3b8004ab09c2943b27ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:00 +0000
Subject: [PATCH 12/22] fix: dense construction wrote out of bounds if a basis
 misreports its dimension

OrderedBasis is a safe trait, so its answers cannot justify unchecked access.
The test basis in this very file does it for key 255.
---
 src/vector/implementation/simple_dense_vector.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index c76332e..4da42f5 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -179,12 +179,7 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
         let k = key.into();
         let size = Self::BasisType::vector_dimension_for_key(&k);
         let mut new_vect = Self::from_dimension(size);
-        unsafe {
-            // We have just created the vector to have at least size+1 elements
-            // So this is safe
-            *new_vect.as_mut_slice()
-                .get_unchecked_mut(Self::BasisType::key_to_index(&k)) = scalar.into();
-        }
+        new_vect.as_mut_slice()[Self::BasisType::key_to_index(&k)] = scalar.into();
         new_vect
     }
 
@@ -202,11 +197,8 @@ impl<'vec, 'a: 'vec, B, S> Vector<'vec> for SimpleDenseVector<'a, B, S>
 
         let mut result = Self::from_dimension(dimension);
 
-        // We have just created a vector large enough to accomodate all these indices.
-        unsafe {
-            for (i, v) in vec.into_iter() {
-                Self::ScalarType::add_inplace(result.as_mut_slice().get_unchecked_mut(i), &v);
-            }
+        for (i, v) in vec.into_iter() {
+            Self::ScalarType::add_inplace(&mut result.as_mut_slice()[i], &v);
         }
 
         result
-- 
2.43.0


From 78ad192b411a8553ed10927c8f4bbd99c7ac6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 13/22] fix: tensor products accessed memory out of bounds

The product assumed that every operand, and the output, stores all of its top
degree. Empty vectors (so any product of two scalars, whose output starts
empty) and vectors ending inside a degree were read and written out of bounds.
The in-place product sliced past both halves of its own buffer, underflowed
degrees, and never updated the constant term; compute it out of place.
---
 src/free_tensor/implementation/dense.rs | 146 +++++-------------------
 1 file changed, 30 insertions(+), 116 deletions(-)

diff --git a/src/free_tensor/implementation/dense.rs b/src/free_tensor/implementation/dense.rs
index 12769a4..e18afb4 100644
--- a/src/free_tensor/implementation/dense.rs
+++ b/src/free_tensor/implementation/dense.rs
@@ -58,13 +58,25 @@ impl<'a, S, const NLETTERS: DegreeType> From<SimpleDenseVector<'a, TensorBasis<N
 
 
 mod tensor_mul_impl {
+    use std::cmp;
+    use std::ops::Range;
+
+    use crate::DimensionType;
     use crate::coefficients::CoefficientField;
-    
 
+
+    /// The part of a degree that is actually stored.
+    pub(super) fn stored_part<S>(data: &[S], range: Range<DimensionType>) -> &[S]
+    {
+        data.get(range.start..cmp::min(range.end, data.len())).unwrap_or(&[])
+    }
+
+    /// Requires rhs.len() <= rhs_dim and lhs.len() * rhs_dim <= out.len().
     pub(super) unsafe fn dense_tensor_multiply_into_buffer<S: CoefficientField>(
         out: &mut [S],
         lhs: &[S],
         rhs: &[S],
+        rhs_dim: DimensionType,
         func: &mut impl FnMut(&S) -> S,
     )
     {
@@ -75,19 +87,8 @@ mod tensor_mul_impl {
                 S::add_inplace(&mut *out_ptr, &func(&S::mul(lhs_v, rhs_v)));
                 out_ptr = out_ptr.add(1);
             }
-        }
-    }
-
-    pub(super) unsafe fn dense_tensor_multiply_inplace<S: CoefficientField>(
-        out: &mut [S],
-        rhs: &[S],
-        func: &mut impl FnMut(&S) -> S
-    )
-    {
-        for out_ptr in out {
-            for rhs_v in rhs {
-                *out_ptr = func(&S::mul(out_ptr, rhs_v));
-            }
+            // rhs might stop short of the end of its degree
+            out_ptr = out_ptr.add(rhs_dim - rhs.len());
         }
     }
 
@@ -269,7 +270,7 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::dense_tensor_multiply_into_buffer;
+        use tensor_mul_impl::{dense_tensor_multiply_into_buffer, stored_part};
 
         let rhs_r = rhs.borrow();
         let lhs_r = lhs.borrow();
@@ -282,8 +283,9 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
             lhs_deg + rhs_deg
         );
 
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
+        let out_dim = TensorBasis::<NLETTERS>::start_of_degree(max_deg+1);
+        if self.as_slice().len() < out_dim {
+            self.resize(out_dim);
         }
 
 
@@ -301,17 +303,15 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
 
             for lhs_d in (lhs_deg_min..=lhs_deg_max).rev() {
                 let rhs_d = out_deg - lhs_d;
+                let rhs_range = TensorBasis::<NLETTERS>::degree_range(rhs_d);
                 unsafe {
                     dense_tensor_multiply_into_buffer(
-                        self.as_mut_slice()
-                            .get_unchecked_mut(
-                                TensorBasis::<NLETTERS>::degree_range(out_deg)),
-                        lhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(lhs_d)),
-                        rhs_r.as_slice()
-                            .get_unchecked(
-                                TensorBasis::<NLETTERS>::degree_range(rhs_d)),
+                        &mut self.as_mut_slice()[TensorBasis::<NLETTERS>::degree_range(out_deg)],
+                        stored_part(
+                            lhs_r.as_slice(),
+                            TensorBasis::<NLETTERS>::degree_range(lhs_d)),
+                        stored_part(rhs_r.as_slice(), rhs_range.clone()),
+                        rhs_range.len(),
                         &mut func
                     );
                 }
@@ -322,99 +322,13 @@ impl<'vec, V, S, const NLETTERS: DegreeType> Algebra<'vec> for V
     fn multiply_into_impl(
         &mut self,
         rhs: impl Borrow<Self>,
-        mut func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
+        func: impl FnMut(&<Self as Vector<'vec>>::ScalarType) -> <Self as Vector<'vec>>::ScalarType,
         to_degree: Option<DegreeType>
     )
     {
-        use tensor_mul_impl::*;
-
-        let rhs_r = rhs.borrow();
-
-        let lhs_deg = self.degree();
-        let rhs_deg = rhs_r.degree();
-
-        let max_deg = cmp::min(
-            to_degree.expect("Max degree should be set for tensor types"),
-            lhs_deg + rhs_deg
-        );
-
-        if self.degree() < max_deg {
-            self.resize(TensorBasis::<NLETTERS>::start_of_degree(max_deg+1));
-        }
-
-        let (offset, assign) = match rhs_r.as_slice().get(0) {
-            Some(val) if *val == S::ZERO => (1, true),
-            Some(val) if *val == S::ONE => (1, false),
-            _ => (0, true)
-        };
-
-        for out_deg in (1..=max_deg).rev() {
-            let lhs_deg_min = cmp::max(0, out_deg - rhs_deg);
-
-            let lhs_deg_max = cmp::min(out_deg - offset, lhs_deg);
-
-            let mut reduce = 0;
-
-            if assign {
-                reduce = 1;
-
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_deg_max);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg);
-
-                if offset == 1 {
-                    let lhs_deg_range =
-                        TensorBasis::<NLETTERS>::degree_range(lhs_deg_max);
-                    let lhs_as_slice = self.as_mut_slice();
-                    let (a, b) = lhs_as_slice.split_at_mut(
-                        TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-
-                    unsafe {
-                        dense_tensor_multiply_into_buffer(
-                            b.get_unchecked_mut(out_deg_range),
-                            a.get_unchecked(lhs_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                } else if offset == 0 {
-                    unsafe {
-                        dense_tensor_multiply_inplace(
-                            self.as_mut_slice().get_unchecked_mut(out_deg_range),
-                            rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                            &mut func,
-                        );
-                    }
-                }
-            }
-
-
-            for lhs_d in (lhs_deg_min..=(lhs_deg_max - reduce)).rev() {
-                let rhs_d = out_deg - lhs_d;
-
-                let rhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(out_deg - lhs_d);
-                let out_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(rhs_d);
-                let lhs_deg_range =
-                    TensorBasis::<NLETTERS>::degree_range(lhs_d);
-
-                let lhs_as_slice = self.as_mut_slice();
-                let (a, b) = lhs_as_slice.split_at_mut(
-                    TensorBasis::<NLETTERS>::start_of_degree(lhs_deg_max));
-                unsafe {
-                    dense_tensor_multiply_into_buffer(
-                        b.get_unchecked_mut(out_deg_range),
-                        a.get_unchecked(lhs_deg_range),
-                        rhs_r.as_slice().get_unchecked(rhs_deg_range),
-                        &mut func,
-                    );
-                }
-            }
-
-        }
+        let mut result = Self::new();
+        result.multiply_and_add_into_impl(&*self, rhs, func, to_degree);
+        self.swap(result);
     }
 
 }
-- 
2.43.0


From 984cffc8d52a07570036a5d7487fb0a8f3b17d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 14/22] fix: mul_rat_rdiv multiplied by its divisor

---
 src/algebra/mod.rs     | 4 ++--
 src/free_tensor/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mod.rs b/src/algebra/mod.rs
index 89d570a..04dd2a2 100644
--- a/src/algebra/mod.rs
+++ b/src/algebra/mod.rs
@@ -145,14 +145,14 @@ pub trait Algebra<'vec> : Vector<'vec> {
     fn mul_rat_rdiv(
         &mut self,
         rhs: impl Borrow<Self>,
-        scalar: impl Into<Self::ScalarType>,
+        scalar: impl Into<<Self::ScalarType as CoefficientField>::RationalType>,
         to_degree: Option<DegreeType>
     ) -> &mut Self
     {
         let sca = scalar.into();
         self.multiply_into_impl(
             rhs.borrow(),
-            move |v| { <Self::ScalarType as CoefficientField>::mul(v, &sca) },
+            move |v| { <Self::ScalarType as CoefficientField>::div(v, &sca) },
             to_degree
         );
         self
diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 5602daa..ef993e7 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -30,7 +30,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let borrowed_result = result.borrow_mut();
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            borrowed_result.mul_rat_rdiv(self, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE));
+            borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
         result
@@ -48,7 +48,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         }
 
         for i in (1..Self::MAX_DEGREE).rev() {
-            self.mul_rat_rdiv(&x, Self::ScalarType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
+            self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
 
-- 
2.43.0


From 3c7e11565501cdf90e54f6ed5589e75c38ee42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 15/22] fix: exp, fmexp and log dropped the term of maximum
 degree

---
 src/free_tensor/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index ef993e7..09b9798 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -29,7 +29,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
         let mut result = Self::from_key(Self::KeyType::new());
         let borrowed_result = result.borrow_mut();
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             borrowed_result.mul_rat_rdiv(self, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE));
             borrowed_result.add_inplace(&tunit);
         }
@@ -47,7 +47,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             self.mul_rat_rdiv(&x, Self::RationalType::from_degree(&i), Some(Self::MAX_DEGREE -i + 1));
             self.add_inplace(oself);
         }
@@ -67,7 +67,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             *unit = Self::ScalarType::ZERO.clone();
         }
 
-        for i in (1..Self::MAX_DEGREE).rev() {
+        for i in (1..=Self::MAX_DEGREE).rev() {
             if i % 2 == 0 {
                 rv.sub_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             } else {
-- 
2.43.0


From 84b74539e6ece0ce0b051f41fcf9d6864b1c3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:57 +0000
Subject: [PATCH 16/22] fix: log discarded each product of its Horner
 evaluation

---
 src/free_tensor/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/free_tensor/mod.rs b/src/free_tensor/mod.rs
index 09b9798..0893d81 100644
--- a/src/free_tensor/mod.rs
+++ b/src/free_tensor/mod.rs
@@ -73,7 +73,7 @@ pub trait FreeTensor<'vec, S: CoefficientField, const NLETTERS: DegreeType>
             } else {
                 rv.add_scalar_rdivide(&tunit, Self::RationalType::from_degree(&i));
             }
-            rv.multiply(&x, Some(Self::MAX_DEGREE));
+            rv.multiply_inplace(&x, Some(Self::MAX_DEGREE));
         }
 
         rv
-- 
2.43.0


From 0552c319fc405768833b45bb1ef268f9295a40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 17/22] fix: Moebius function recursed forever on products of
 distinct primes

Any Lie basis dimension from degree 6 on overflowed the stack.
---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index 530f374..e38e537 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -27,7 +27,7 @@ mod compute {
         if divisor == n {
             -1
         } else if n % divisor == 0 {
-            mobius(n) * mobius(n / divisor)
+            mobius(divisor) * mobius(n / divisor)
         } else {
             mobius_impl(n, divisor+1)
         }
-- 
2.43.0


From b2e6eb62d191576f68030372947dcc1018de2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 18/22] fix: Witt dimensions were rounded term by term

---
 src/lie/lie_basis/degree_range_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index e38e537..ad8c488 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -51,8 +51,7 @@ mod compute {
     ) -> SignedDimensionType
     {
         mobius(divisor) *
-            (width as SignedDimensionType).pow((level/divisor) as u32) /
-            (level as SignedDimensionType)
+            (width as SignedDimensionType).pow((level/divisor) as u32)
     }
 
     const fn hall_set_level_size_impl(
@@ -81,7 +80,7 @@ mod compute {
 
     const fn hall_set_level_size(width: DimensionType, depth: DimensionType) -> DimensionType
     {
-        hall_set_level_size_impl(width, depth, 1) as DimensionType
+        (hall_set_level_size_impl(width, depth, 1) / (depth as SignedDimensionType)) as DimensionType
     }
 
     const fn hall_set_size_impl(
-- 
2.43.0


From bd5e94ee97d3b70765e01c6f688e050978323251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 19/22] fix: degree lookup was one too high for the last
 element of each degree

---
 src/lie/lie_basis/degree_range_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lie/lie_basis/degree_range_map.rs b/src/lie/lie_basis/degree_range_map.rs
index ad8c488..e6f6e72 100644
--- a/src/lie/lie_basis/degree_range_map.rs
+++ b/src/lie/lie_basis/degree_range_map.rs
@@ -195,7 +195,7 @@ impl<const NLETTERS: DegreeType> DegreeRangeMap<NLETTERS> {
                 return Err(DegreeOutOfBounds);
             }
 
-            Ok(self.0.partition_point(move |&v| v <= dkey) as DegreeType)
+            Ok(self.0.partition_point(move |&v| v < dkey) as DegreeType)
         }
 
 }
-- 
2.43.0


From f4b8c357f06df64ce925b1d533505edc3f1abe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:17 +0000
Subject: [PATCH 20/22] fix: get_hall_set deadlocked on the first request and
 could replace a shared set

The read guard of the cache lived until the end of the if-let, where the write
lock is taken. Two concurrent first requests also each returned their own set.
---
 src/lie/lie_basis/hall_set.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index 9e1f479..b1956f0 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -249,10 +249,14 @@ impl<const NLETTERS: DegreeType> HallSet for HallSetInner<NLETTERS> {
 
 pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) -> HallSetObject
 {
-    if let Some(val) = HALL_SET_CACHE.read()
+    // The read lock must be released before taking the write lock below.
+    let cached = HALL_SET_CACHE.read()
         .expect("Error retrieving from hall set cache")
-        .get(&NLETTERS) {
-        val.clone()
+        .get(&NLETTERS)
+        .cloned();
+
+    if let Some(val) = cached {
+        val
     } else {
         let mut inner = HallSetInner::<NLETTERS>::new();
 
@@ -264,8 +268,9 @@ pub fn get_hall_set<const NLETTERS: DegreeType>(pre_grow: Option<DegreeType>) ->
 
         let new_hs = HallSetObject::new(inner);
         HALL_SET_CACHE.write().expect("Could not get write access to hall set cache")
-            .insert(NLETTERS, new_hs.clone());
-        new_hs
+            .entry(NLETTERS)
+            .or_insert(new_hs)
+            .clone()
     }
 
 }
-- 
2.43.0


From f309a6f3777119ef91b500edd3aed2966ffe2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:59 +0000
Subject: [PATCH 21/22] hooks: expose private items under --cfg verif_hooks

---
 src/free_tensor/tensor_basis/tensor_key.rs       | 11 +++++++++++
 src/lie/lie_basis/hall_set.rs                    |  7 +++++++
 src/lie/lie_basis/mod.rs                         |  8 ++++++++
 src/lie/mod.rs                                   |  5 ++++-
 src/vector/implementation/simple_dense_vector.rs | 16 ++++++++++++++++
 5 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index 423f467..dfce160 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -239,6 +239,17 @@ impl<'a, const NLETTERS: DegreeType> Iterator for TensorKeyIterator<'a, NLETTERS
 
 
 
+#[cfg(verif_hooks)]
+impl<'a, const NLETTERS: DegreeType> TensorKeyIterator<'a, NLETTERS> {
+
+    pub fn verif_new(key: &'a TensorKey<NLETTERS>) -> Self
+    {
+        Self::new(key)
+    }
+
+}
+
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/lie/lie_basis/hall_set.rs b/src/lie/lie_basis/hall_set.rs
index b1956f0..7c03783 100644
--- a/src/lie/lie_basis/hall_set.rs
+++ b/src/lie/lie_basis/hall_set.rs
@@ -82,6 +82,13 @@ impl HallSetObject {
     {
         Self(Arc::new(RwLock::new(obj)))
     }
+
+    /// Identity of the shared set behind this handle.
+    #[cfg(verif_hooks)]
+    pub fn verif_identity(&self) -> usize
+    {
+        Arc::as_ptr(&self.0) as *const () as usize
+    }
 }
 
 impl HallSet for HallSetObject {
diff --git a/src/lie/lie_basis/mod.rs b/src/lie/lie_basis/mod.rs
index dc0456e..f83bdf3 100644
--- a/src/lie/lie_basis/mod.rs
+++ b/src/lie/lie_basis/mod.rs
@@ -11,3 +11,11 @@ use hall_set::{get_hall_set};
 
 
 mod hall_key;
+
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use super::degree_range_map::DegreeRangeMap;
+    pub use super::hall_key::HallKey;
+    pub use super::hall_set::{get_hall_set, HallSet, HallSetObject};
+}
diff --git a/src/lie/mod.rs b/src/lie/mod.rs
index c29d3c4..d7e6340 100644
--- a/src/lie/mod.rs
+++ b/src/lie/mod.rs
@@ -1 +1,4 @@
-mod lie_basis;
\ No newline at end of file
+mod lie_basis;
+
+#[cfg(verif_hooks)]
+pub use lie_basis::verif_hooks;
diff --git a/src/vector/implementation/simple_dense_vector.rs b/src/vector/implementation/simple_dense_vector.rs
index 4da42f5..cc92c8c 100644
--- a/src/vector/implementation/simple_dense_vector.rs
+++ b/src/vector/implementation/simple_dense_vector.rs
@@ -387,6 +387,22 @@ impl<'a, B, S, K> Display for SimpleDenseVector<'a, B, S>
 
 
 
+#[cfg(verif_hooks)]
+impl<'a, B: OrderedBasis, S: CoefficientField> SimpleDenseVector<'a, B, S> {
+
+    pub fn verif_borrowed(data: &'a [S]) -> Self
+    {
+        SimpleDenseVector(Borrowed(data), PhantomData)
+    }
+
+    pub fn verif_borrowed_mut(data: &'a mut [S]) -> Self
+    {
+        SimpleDenseVector(BorrowedMut(data), PhantomData)
+    }
+
+}
+
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 58b0ff0de161c7b176cb439937089d73e72181bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:43 +0000
Subject: [PATCH 22/22] fix: concatenating onto the empty word shifted by 64
 bits for widths from 2^31

---
 src/free_tensor/tensor_basis/tensor_key.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/free_tensor/tensor_basis/tensor_key.rs b/src/free_tensor/tensor_basis/tensor_key.rs
index dfce160..5a051ba 100644
--- a/src/free_tensor/tensor_basis/tensor_key.rs
+++ b/src/free_tensor/tensor_basis/tensor_key.rs
@@ -161,6 +161,10 @@ impl<const NLetters: u32> TensorKey<NLetters> {
         if self.size() + other.size() > Self::max_depth() {
             panic!("Number of letters exceeds maximum depth");
         }
+        if self.size() == 0 {
+            // With 32 bits per letter the shift below would be by all 64 bits.
+            return Self { size: other.size(), data: other.data() };
+        }
         Self {
             size: self.size() + other.size(),
             data: (self.data() << (other.size() * Self::bits_per_letter())) + other.data()
-- 
2.43.0

