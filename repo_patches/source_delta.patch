From a54e8f13ff2b0cec59ff87d2fbb287c45abafad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:18 +0000
Subject: [PATCH 1/9] fix: use the outer offset in lane expressions

Lanes and LanesMut ignored the accumulated offset when creating the view
of a lane, so that lanes were repeated if the remaining dimensions do not
collapse into one, and mutable lanes could alias.
---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From 69d16b38b5d57f1569fa30d6a7a9ba046ac8e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:20 +0000
Subject: [PATCH 2/9] fix: allocate the index of from_fn expressions for
 dynamic rank

The default value of the index storage is empty with dynamic rank, so that
evaluating the expression panicked for rank >0.
---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..b9f5844 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = S::Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0


From ac7de36d26f83c84529e25fbb4d26ac034ad38d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:38 +0000
Subject: [PATCH 3/9] fix: do not visit elements when iterating over empty
 arrays

If one dimension is zero and another one is not, iteration over outer and
inner dimensions separately could visit elements that do not exist, e.g.
with Tensor::from_fn([0, 3], ..) or for a strided view with shape [3, 0].
---
 src/expr/iter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..d64fdd9 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -20,15 +20,23 @@ impl<E: Expression> Iter<E> {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let is_empty = expr.shape().with_dims(|dims| dims.contains(&0));
+        let inner_limit = if is_empty {
+            0
+        } else {
+            expr.shape().with_dims(|dims| dims[outer_rank..].iter().product())
+        };
 
         let mut outer_index = Default::default();
         let mut outer_limit = Default::default();
 
         if outer_rank > 0 {
             outer_index = Dims::new(expr.rank());
-            outer_limit =
-                expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+            outer_limit = if is_empty {
+                Dims::new(expr.rank()) // No outer dimensions to visit.
+            } else {
+                expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"))
+            };
         }
 
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
-- 
2.43.0


From b0cf403da3725bf8bbfb4efecde685faae8c13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:41 +0000
Subject: [PATCH 4/9] fix: ensure that the iterator is fused

If there are outer dimensions, calling next() after the iterator has ended
restarted the iteration, and size_hint() was not zero. In particular, this
gave aliasing mutable references for iter_mut().
---
 src/expr/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index d64fdd9..c52355c 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -65,7 +65,10 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
+        // Ensure that there are no remaining elements in following calls.
+        self.outer_limit.as_mut().fill(0);
+        self.inner_index = 0;
+        self.inner_limit = 0;
 
         false
     }
-- 
2.43.0


From d0f51902a1fbfa2b70079703bfa881929d3d25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:57 +0000
Subject: [PATCH 5/9] fix: check the new shape before resizing the array

If the new dimensions do not match a constant-sized dimension, resize()
panicked after elements had been changed, followed by another panic during
cleanup that aborted the process.
---
 src/raw_tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw_tensor.rs b/src/raw_tensor.rs
index 9e279d1..0f863ca 100644
--- a/src/raw_tensor.rs
+++ b/src/raw_tensor.rs
@@ -115,6 +115,9 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
         assert!(new_dims.len() == self.slice.mapping().rank(), "invalid rank");
 
         if !new_dims.is_empty() {
+            // Ensure that the new shape is valid before the array is changed.
+            let new_shape = S::from_dims(new_dims);
+
             let new_len = new_dims.iter().try_fold(1usize, |acc, &x| acc.checked_mul(x));
             let new_len = new_len.expect("invalid length");
 
@@ -144,7 +147,7 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
                         }
                     });
 
-                    old_mapping.shape_mut().with_mut_dims(|dims| dims.copy_from_slice(new_dims));
+                    *old_mapping = DenseMapping::new(new_shape);
                 });
             }
         }
-- 
2.43.0


From 50dd43a388acfabc13564909490de71246d0adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:00 +0000
Subject: [PATCH 6/9] fix: drop existing elements when cloning into a moving
 expression

IntoExpr::clone_from overwrote the elements without dropping them.
---
 src/expr/into_expr.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/expr/into_expr.rs b/src/expr/into_expr.rs
index 319aafd..102760d 100644
--- a/src/expr/into_expr.rs
+++ b/src/expr/into_expr.rs
@@ -49,9 +49,7 @@ impl<B: Buffer + Clone> Clone for IntoExpr<B> {
     }
 
     fn clone_from(&mut self, source: &Self) {
-        assert!(self.index == 0 && source.index == 0, "expression in use");
-
-        self.buffer.clone_from(&source.buffer);
+        *self = source.clone(); // Ensure that the existing elements are dropped.
     }
 }
 
-- 
2.43.0


From 4d622d13e6da50b247ee4666e1e10262ff62dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:24 +0000
Subject: [PATCH 7/9] fix: drop all elements if a zipped expression panics

In Tensor::zip_with, the last element that was written back was not dropped
if evaluating the next element of the other expression panicked.
---
 src/tensor.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 2f28ced..0d074cf 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -430,35 +430,34 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
     {
         struct DropGuard<T, S: Shape, A: Allocator> {
             tensor: ManuallyDrop<Tensor<T, S, A>>,
-            index: usize,
+            read: usize,
+            written: usize,
         }
 
         impl<T, S: Shape, A: Allocator> Drop for DropGuard<T, S, A> {
             fn drop(&mut self) {
                 let ptr = self.tensor.as_mut_ptr();
-                let tail = self.tensor.len() - self.index;
+                let tail = self.tensor.len() - self.read;
 
-                // Drop all elements except the current one, which is read but not written back.
+                // Drop all elements except if read but not written back.
                 unsafe {
                     let mut vec = ManuallyDrop::take(&mut self.tensor).into_vec();
 
                     vec.set_len(0);
 
-                    if self.index > 1 {
-                        ptr::slice_from_raw_parts_mut(ptr, self.index - 1).drop_in_place();
-                    }
-
-                    ptr::slice_from_raw_parts_mut(ptr.add(self.index), tail).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr, self.written).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr.add(self.read), tail).drop_in_place();
                 }
             }
         }
 
-        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0 };
+        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), read: 0, written: 0 };
         let expr = guard.tensor.expr_mut().zip(expr);
 
         expr.for_each(|(x, y)| unsafe {
-            guard.index += 1;
+            guard.read += 1;
             ptr::write(x, f((ptr::read(x), y)));
+            guard.written += 1;
         });
 
         let tensor = unsafe { ManuallyDrop::take(&mut guard.tensor) };
-- 
2.43.0


From 125c87a726ffda894863ac28953a33746a798581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:26 +0000
Subject: [PATCH 8/9] fix: check permutations correctly for large dynamic rank

The bit mask used when checking that dimensions are unique overflowed if the
rank is the number of bits or more. Valid permutations were then rejected, or
in release mode invalid permutations were accepted.
---
 src/mapping.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index d996750..a96c7a7 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -324,16 +324,11 @@ impl<S: Shape> Mapping for StridedMapping<S> {
     fn permute<M: Mapping>(mapping: &M, perm: &[usize]) -> Self {
         assert!(perm.len() == mapping.rank(), "invalid permutation");
 
-        let mut index_mask = 0;
-
         for i in 0..mapping.rank() {
             assert!(perm[i] < mapping.rank(), "invalid permutation");
-
-            index_mask |= 1 << perm[i];
+            assert!(!perm[..i].contains(&perm[i]), "invalid permutation");
         }
 
-        assert!(index_mask == !(usize::MAX << mapping.rank()), "invalid permutation");
-
         let mut shape = S::new(mapping.rank());
         let mut strides = S::Dims::new(mapping.rank());
 
-- 
2.43.0


From a6a4cfdfd73da9931d0cbb50abccb06b206690a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:50 +0000
Subject: [PATCH 9/9] fix: reject shapes with overflowing length in
 Array::into_shape

---
 src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.rs b/src/array.rs
index f2b27ce..f966d74 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -52,7 +52,7 @@ impl<T, S: ConstShape> Array<T, S> {
     ///
     /// Panics if the array length is changed.
     pub fn into_shape<I: ConstShape>(self) -> Array<T, I> {
-        assert!(I::default().len() == self.len(), "length must not change");
+        assert!(I::default().checked_len() == Some(self.len()), "length must not change");
 
         let me = ManuallyDrop::new(self);
 
-- 
2.43.0

