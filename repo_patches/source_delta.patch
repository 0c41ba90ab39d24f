From 348df857da862ab67b991e5a1888bf12870c16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 01/22] fix: push every chunk of a pushed value

VecVoid::push copied a single alignment sized chunk, so pushing an erased value
whose size exceeds its alignment (e.g. a String or a [i64; 3]) panicked and left
the container without its type information.
---
 src/vec_void.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index b6ec5f4..005604b 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -263,14 +263,19 @@ impl VecVoid {
     #[inline]
     pub(crate) fn push(&mut self, val: &[MaybeUninit<u8>]) {
         fn push<T: 'static + Copy>(buf: &mut VecVoid, val: &[MaybeUninit<u8>]) {
+            let size = buf.elem.size;
+            assert_eq!(val.len(), buf.elem.num_bytes());
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    // SAFETY: T here is one of the T# so it's copy. The
-                    // following is effectively a move and doesn't rely on the
-                    // "actual" type being Copy.
-                    let val_t = *(val.as_ptr() as *const T);
-                    v.push(val_t);
+                    // SAFETY: T here is one of the T# and `size` of them make up one element. The
+                    // following is effectively a move and doesn't rely on the "actual" type being
+                    // Copy.
+                    v.reserve(size);
+                    let len = v.len();
+                    let end = v.as_mut_ptr().add(len) as *mut MaybeUninit<u8>;
+                    std::ptr::copy_nonoverlapping(val.as_ptr(), end, val.len());
+                    v.set_len(len + size);
                 });
             }
         }
-- 
2.43.0


From ca4999d7cbb16bbf950e0f40372cce056e860996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 02/22] fix: grow capacity in whole elements

Growing the chunk vector with Vec::reserve may produce a capacity which is not a
multiple of the element size, in which case from_vec_override panics (e.g. on
reserve, push_cloned or append for a [u8; 3] vector with a capacity of one) and the
contents are lost. The requested capacity could also overflow silently.
---
 src/vec_void.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 005604b..0a7757c 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -81,6 +81,28 @@ impl Default for VecVoid {
     }
 }
 
+/// Reserve capacity for at least `additional` elements made up of `size` chunks each.
+///
+/// In contrast to `Vec::reserve`, the capacity of `v` grows in whole elements, which is what
+/// `VecVoid::from_vec_override` expects.
+fn reserve_elems<T>(v: &mut Vec<T>, additional: usize, size: usize) {
+    if size == 0 {
+        return;
+    }
+    let len = v.len() / size;
+    let cap = v.capacity() / size;
+    if additional <= cap - len {
+        return;
+    }
+    let required = len.checked_add(additional).expect("capacity overflow");
+    // Grow by at least a factor of two to ensure amortized constant time insertion.
+    let chunks = required
+        .max(cap.saturating_mul(2))
+        .checked_mul(size)
+        .expect("capacity overflow");
+    v.reserve_exact(chunks - v.len());
+}
+
 impl VecVoid {
     /// Returns the length of this vector.
     pub(crate) fn len(&self) -> usize {
@@ -218,7 +240,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(additional * size);
+                    reserve_elems(v, additional, size);
                 })
             };
         }
@@ -242,9 +264,12 @@ impl VecVoid {
     #[inline]
     pub(crate) fn append(&mut self, other: &mut VecVoid) {
         fn append<T: 'static>(buf: &mut VecVoid, other: &mut VecVoid) {
+            let size = buf.elem.size;
+            let additional = other.len;
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|target: &mut Vec<T>| {
+                    reserve_elems(target, additional, size);
                     other.apply_aligned_unchecked(|source: &mut Vec<T>| {
                         target.append(source);
                     });
@@ -271,7 +296,7 @@ impl VecVoid {
                     // SAFETY: T here is one of the T# and `size` of them make up one element. The
                     // following is effectively a move and doesn't rely on the "actual" type being
                     // Copy.
-                    v.reserve(size);
+                    reserve_elems(v, 1, size);
                     let len = v.len();
                     let end = v.as_mut_ptr().add(len) as *mut MaybeUninit<u8>;
                     std::ptr::copy_nonoverlapping(val.as_ptr(), end, val.len());
@@ -304,6 +329,7 @@ impl VecVoid {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
                     // SAFETY: T here is one of the T# so it's copy.
                     let orig_len = v.len();
+                    reserve_elems(v, len.saturating_sub(orig_len / size), size);
                     v.resize_with(len * size, Default::default);
                     let byte_slice = std::slice::from_raw_parts_mut(
                         (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
-- 
2.43.0


From 571220dea32899061e45a0e15f6745d2168ccf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 03/22] fix: keep contents and type information when an
 operation panics

A panic inside an operation applied to the extracted Vec (e.g. in the Clone
implementation of a pushed element or an out of range rotation) left behind an empty
VecVoid of a different type. All elements were leaked and dropping the containing
VecDyn panicked.
---
 src/vec_void.rs | 65 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 0a7757c..32e4a3a 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -81,6 +81,26 @@ impl Default for VecVoid {
     }
 }
 
+/// A guard that puts a temporarily extracted `Vec` back into the `VecVoid` it was taken from.
+///
+/// This happens even if the function applied to the extracted `Vec` panics. Otherwise the `VecVoid`
+/// would lose its contents along with its type information.
+struct Restore<'a, T, F: Fn(Vec<T>) -> VecVoid> {
+    buf: &'a mut VecVoid,
+    v: ManuallyDrop<Vec<T>>,
+    into_void: F,
+}
+
+impl<'a, T, F: Fn(Vec<T>) -> VecVoid> Drop for Restore<'a, T, F> {
+    #[inline]
+    fn drop(&mut self) {
+        // SAFETY: `self.v` is not used after this.
+        let v = unsafe { ManuallyDrop::take(&mut self.v) };
+        // The replaced default VecVoid value can be safely ignored.
+        *self.buf = (self.into_void)(v);
+    }
+}
+
 /// Reserve capacity for at least `additional` elements made up of `size` chunks each.
 ///
 /// In contrast to `Vec::reserve`, the capacity of `v` grows in whole elements, which is what
@@ -197,12 +217,14 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let orig_elem = self.elem;
-        let mut v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid value can be safely ignored
-        let _ = std::mem::replace(self, VecVoid::from_vec_override(v, orig_elem));
-        out
+        let elem = self.elem;
+        let v = ManuallyDrop::new(std::mem::take(self).into_aligned_vec_unchecked::<T>());
+        let mut restore = Restore {
+            buf: self,
+            v,
+            into_void: |v| VecVoid::from_vec_override(v, elem),
+        };
+        f(&mut restore.v) // May allocate/deallocate
     }
 
     /// Apply a function to this vector as if it was a `Vec<T>` where `T` is
@@ -212,11 +234,13 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let mut v = std::mem::take(self).into_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid can be safely ignored.
-        let _ = std::mem::replace(self, VecVoid::from_vec(v));
-        out
+        let v = ManuallyDrop::new(std::mem::take(self).into_vec_unchecked::<T>());
+        let mut restore = Restore {
+            buf: self,
+            v,
+            into_void: VecVoid::from_vec,
+        };
+        f(&mut restore.v) // May allocate/deallocate
     }
 
     #[inline]
@@ -308,18 +332,15 @@ impl VecVoid {
         eval_align!(self.elem.alignment; push::<_>(self, val));
     }
 
-    /// Resize this `VecVoid` using a given per element initializer.
+    /// Resize this `VecVoid` to hold one more element using a given initializer.
     #[cfg(feature = "traits")]
     #[inline]
     pub(crate) unsafe fn resize_with<I>(&mut self, len: usize, init: I)
     where
         I: FnOnce(&mut [MaybeUninit<u8>]),
     {
-        fn resize_with<T: 'static + Default + Copy + std::fmt::Debug, Init>(
-            buf: &mut VecVoid,
-            len: usize,
-            init: Init,
-        ) where
+        fn resize_with<T: 'static, Init>(buf: &mut VecVoid, len: usize, init: Init)
+        where
             Init: FnOnce(&mut [MaybeUninit<u8>]),
         {
             let size = buf.elem.size;
@@ -327,15 +348,17 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    // SAFETY: T here is one of the T# so it's copy.
                     let orig_len = v.len();
-                    reserve_elems(v, len.saturating_sub(orig_len / size), size);
-                    v.resize_with(len * size, Default::default);
+                    debug_assert_eq!(len * size, orig_len + size);
+                    reserve_elems(v, 1, size);
                     let byte_slice = std::slice::from_raw_parts_mut(
-                        (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
+                        v.as_mut_ptr().add(orig_len) as *mut MaybeUninit<u8>,
                         num_bytes,
                     );
+                    // The new element is counted only once it is initialized, since `init` may
+                    // panic.
                     init(byte_slice);
+                    v.set_len(orig_len + size);
                 });
             }
         }
-- 
2.43.0


From 997f4c46a558f9e7b907ae9cbd5f79dc14468381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 04/22] fix: check the element type in VecVoid::clone_from

Cloning from a VecVoid with a different element type reinterpreted the source with
the alignment of the destination, which reads out of bounds.
---
 src/vec_void.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 32e4a3a..1a60164 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -67,9 +67,20 @@ impl Clone for VecVoid {
                     elem: source.elem,
                 };
                 let src = ManuallyDrop::new(src.into_aligned_vec_unchecked::<T>());
-                out.apply_aligned_unchecked(|out: &mut Vec<T>| out.clone_from(&src))
+                out.apply_aligned_unchecked(|out: &mut Vec<T>| {
+                    // Make sure that the capacity grows in whole elements.
+                    out.clear();
+                    reserve_elems(out, source.len, source.elem.size);
+                    out.clone_from(&src)
+                })
             }
         }
+
+        // The memory can only be reused if both element types are the same.
+        if self.elem != source.elem {
+            *self = source.clone();
+            return;
+        }
         eval_align!(self.elem.alignment; clone_from::<_>(self, source))
     }
 }
-- 
2.43.0


From 5239a08437c3078040b9e62a85ceaefc30c334e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 05/22] fix: deallocate pushed values with their original
 alignment

VecDyn::push dropped the box of a pushed value as if it were a slice of bytes, hence
its memory was deallocated with an alignment of 1 rather than with the alignment it
was allocated with.
---
 src/vec_dyn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index d0cc0e2..f26d262 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -432,8 +432,10 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (bytes, _, _, _) = value.into_raw_parts();
+            let (mut bytes, _, alignment, _) = value.into_raw_parts();
             self.data.data.push(&*bytes);
+            // The moved out of bytes must be deallocated with their original alignment.
+            bytes.drop_as_aligned(alignment);
             Some(self)
         } else {
             None
-- 
2.43.0


From f9672992991d4a72ca53e828c2a16f7fc3c1d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 06/22] fix: drop contents when a consuming conversion fails

VecDyn::into_vec, BoxValue::downcast and SmallValue::downcast with the wrong type as
well as SmallValue::try_new with a value of the wrong size consumed their argument
without ever dropping the contained elements.
---
 src/value.rs   | 28 ++++++++++++++++------------
 src/vec_dyn.rs |  2 ++
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index b527308..d048d49 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -114,6 +114,10 @@ impl<V: HasDrop> SmallValue<V> {
     where
         V: VTable<T>,
     {
+        // Values that do not fit are dropped here.
+        if std::mem::size_of::<T>() != std::mem::size_of::<usize>() {
+            return None;
+        }
         // Prevent drop of value when it goes out of scope.
         let val = ManuallyDrop::new(value);
         val.try_into_usize().map(|usized_value| Value {
@@ -367,15 +371,15 @@ impl<V: ?Sized + HasDrop> Value<Box<[MaybeUninit<u8>]>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<Box<T>> {
+        // If the type doesn't match, then self is dropped here along with its contents.
+        if !self.is::<T>() {
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        let output = if s.is::<T>() {
-            // This is safe since we check that self.bytes represents a `T`.
-            Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) })
-        } else {
-            None
-        };
+        // This is safe since we checked that self.bytes represents a `T`.
+        let output = Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) });
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
@@ -390,15 +394,15 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<T> {
+        // If the type doesn't match, then self is dropped here along with its contents.
+        if !self.is::<T>() {
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        // This is safe since we check that self.bytes represent a `T`.
-        let output = if s.is::<T>() {
-            unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) }
-        } else {
-            None
-        };
+        // This is safe since we checked that self.bytes represent a `T`.
+        let output = unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) };
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index f26d262..b65e7de 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -349,6 +349,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// This function helps the compiler determine the type `T` automatically.
     #[inline]
     pub fn into_vec<T: Elem>(self) -> Option<Vec<T>> {
+        // If the type doesn't match, then self is dropped here along with all of its elements.
+        self.check_ref::<T>()?;
         // This is safe because self.data will not be used after this call, and the resulting
         // Vec<T> will drop all elements correctly.
         unsafe {
-- 
2.43.0


From 7c23799a552555136101e81487360275d3246a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 07/22] fix: compare lengths in PartialEq of VecDyn, Slice and
 SliceMut

A container compared equal to any other container that it was a prefix of. In
particular every empty container was equal to everything.
---
 src/slice.rs   | 13 ++++++-------
 src/vec_dyn.rs |  8 +++++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index bffca3a..3cb7437 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,9 +30,11 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
@@ -345,10 +347,7 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.reborrow()
-            .iter()
-            .zip(other.reborrow().iter())
-            .all(|(this, that)| this == that)
+        self.reborrow() == other.reborrow()
     }
 }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index b65e7de..fab25c8 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -123,9 +123,11 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
-- 
2.43.0


From 0b4371083a5432ce7f71ebdef3e87ef36cddfc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 08/22] fix: require HasEq for the Eq implementation of Value

Value implemented Eq even if the contained type was merely PartialEq.
---
 src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value.rs b/src/value.rs
index d048d49..0b12db1 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -352,7 +352,7 @@ impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Partial
     }
 }
 
-impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Eq for Value<B, V> {}
+impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasEq> Eq for Value<B, V> {}
 
 impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasHash> Hash for Value<B, V> {
     #[inline]
-- 
2.43.0


From 37df4bc518fe94712b35ceeded3aa0332b93c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 09/22] fix: shrink before dropping elements in VecDyn::clear
 and resize

If an element panicked when dropped, the vector still claimed to contain all elements
and dropped them for a second time.
---
 src/vec_dyn.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index fab25c8..c0ca599 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -49,7 +49,7 @@
 use std::{
     any::{Any, TypeId},
     fmt,
-    mem::ManuallyDrop,
+    mem::{ManuallyDrop, MaybeUninit},
     slice,
 };
 
@@ -259,12 +259,26 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     #[inline]
     pub fn clear(&mut self) {
         // Drop all elements manually.
+        self.truncate_elems(0);
+    }
+
+    /// Drop all but the first `new_len` elements.
+    fn truncate_elems(&mut self, new_len: usize) {
+        let VecCopy { data, vtable, .. } = &mut *self.data;
+        let num_bytes = data.elem.num_bytes();
+        let num_dropped = data.len() - new_len;
+        // The length must be updated first. If an element panics when dropped, then the remaining
+        // elements are leaked instead of being dropped for a second time.
+        data.truncate(new_len);
+        // SAFETY: The truncated elements are still intact and are not accessed after this.
         unsafe {
-            let VecCopy { data, vtable, .. } = &mut *self.data;
-            for elem_bytes in data.byte_chunks_mut() {
+            let tail = slice::from_raw_parts_mut(
+                (data.ptr as *mut MaybeUninit<u8>).add(new_len * num_bytes),
+                num_dropped * num_bytes,
+            );
+            for elem_bytes in tail.chunks_exact_mut(num_bytes) {
                 vtable.drop_fn()(elem_bytes);
             }
-            data.clear();
         }
     }
 
@@ -689,15 +703,7 @@ impl<V: ?Sized + HasDrop + HasClone> VecDyn<V> {
             }
         } else {
             // Drop trailing elements manually.
-            unsafe {
-                let VecCopy { data, vtable, .. } = &mut *self.data;
-                for elem_bytes in data.byte_chunks_mut().skip(new_len) {
-                    vtable.drop_fn()(elem_bytes);
-                }
-            }
-
-            // Truncate data
-            self.data.data.truncate(new_len);
+            self.truncate_elems(new_len);
         }
         Some(self)
     }
-- 
2.43.0


From 7391a9daf3fbd8b1fb13d7d7e2e205bd37c5c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 10/22] fix: check bounds in VecCopy::get_ref and get_mut in
 all build profiles

Without debug assertions these safe functions accessed memory out of bounds.
---
 src/vec_copy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 13b0615..0ce342c 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -567,7 +567,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_ref(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         let num_bytes = self.data.elem.num_bytes();
@@ -587,7 +587,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let num_bytes = self.data.elem.num_bytes();
         unsafe {
             CopyValueMut::from_raw_parts(
-- 
2.43.0


From 4c60de69212a9c29eb8981a5d4dcd9bb14410bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 11/22] fix: do not overflow when scaling element indices to
 bytes

Without overflow checks large indices wrapped around and denoted an unrelated or even
a partial element. For instance, rotating a SliceMut of Strings by 2^64 / 24 + 1 places
moved the contained bytes by 8 bytes instead of panicking.
---
 src/index_slice.rs | 10 ++++++----
 src/lib.rs         |  9 ++++++---
 src/slice_copy.rs  | 14 +++++++-------
 src/vec_copy.rs    |  3 +--
 src/vec_void.rs    |  4 ++--
 5 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 2e7b881..b202b48 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -3,6 +3,8 @@ use std::ops;
 /// A helper trait to scale a standard Rust range by a given scale.
 ///
 /// This allows us to use all of Rust's range types for indexing out `Slice`s.
+///
+/// Scaled bounds saturate, since no slice is large enough to contain a bound that overflows.
 pub trait ScaleRange {
     fn scale_range(self, scale: usize) -> Self;
 }
@@ -10,8 +12,8 @@ pub trait ScaleRange {
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
-        self.end *= scale;
+        self.start = self.start.saturating_mul(scale);
+        self.end = self.end.saturating_mul(scale);
         self
     }
 }
@@ -19,7 +21,7 @@ impl ScaleRange for ops::Range<usize> {
 impl ScaleRange for ops::RangeTo<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = self.end.saturating_mul(scale);
         self
     }
 }
@@ -27,7 +29,7 @@ impl ScaleRange for ops::RangeTo<usize> {
 impl ScaleRange for ops::RangeFrom<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
+        self.start = self.start.saturating_mul(scale);
         self
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1c52faa..e52c6a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,7 +195,10 @@ pub(crate) trait ElementBytes {
     /// Get a range of byte indices representing the given element index.
     #[inline]
     fn index_byte_range(&self, i: usize) -> std::ops::Range<usize> {
-        i * self.element_size()..(i + 1) * self.element_size()
+        let size = self.element_size();
+        let start = i.checked_mul(size).expect("index out of bounds");
+        let end = start.checked_add(size).expect("index out of bounds");
+        start..end
     }
 
     /// Index into an immutable slice of bytes.
@@ -232,13 +235,13 @@ pub(crate) trait ElementBytesMut: ElementBytes {
             let l_rng = self.index_byte_range(i);
             // SAFETY: it is safe to swap aligned data since we have unique access.
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * j);
+                let (l, r) = self.bytes_mut().split_at_mut(element_size.saturating_mul(j));
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         } else {
             let l_rng = self.index_byte_range(j);
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * i);
+                let (l, r) = self.bytes_mut().split_at_mut(element_size.saturating_mul(i));
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         }
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 7e0cc62..200c2e8 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,7 +279,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -290,7 +290,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at(mid * elem.num_bytes());
+            let (l, r) = data.split_at(mid.saturating_mul(elem.num_bytes()));
             (
                 SliceCopy::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopy::from_raw_parts(r, elem, vtable.as_ref()),
@@ -624,7 +624,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_left(&mut self, mid: usize) {
-        self.data.rotate_left(mid * self.element_size());
+        self.data.rotate_left(mid.saturating_mul(self.element_size()));
     }
 
     /// Rotates the slice in-place such that the first `self.len() - k` elements of the slice move
@@ -642,7 +642,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_right(&mut self, k: usize) {
-        self.data.rotate_right(k * self.element_size());
+        self.data.rotate_right(k.saturating_mul(self.element_size()));
     }
 
     /*
@@ -687,7 +687,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -698,7 +698,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes() * chunk_size)
+        data.chunks_exact_mut(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -709,7 +709,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at_mut(mid * elem.num_bytes());
+            let (l, r) = data.split_at_mut(mid.saturating_mul(elem.num_bytes()));
             (
                 SliceCopyMut::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopyMut::from_raw_parts(r, elem, vtable.as_ref()),
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 0ce342c..f517316 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -870,8 +870,7 @@ impl VecVoid {
     #[inline]
     pub fn get_bytes(&self, i: usize) -> &[MaybeUninit<u8>] {
         debug_assert!(i < self.len());
-        let element_size = self.element_size();
-        &self.bytes()[i * element_size..(i + 1) * element_size]
+        self.index_byte_slice(i)
     }
 
     /// Get a mutable reference to the byte slice of the `i`'th element of the buffer.
diff --git a/src/vec_void.rs b/src/vec_void.rs
index 1a60164..2ebbc30 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -384,7 +384,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_left(n * size);
+                    v.rotate_left(n.saturating_mul(size));
                 });
             }
         }
@@ -399,7 +399,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_right(n * size);
+                    v.rotate_right(n.saturating_mul(size));
                 });
             }
         }
-- 
2.43.0


From d70fee8e30cac2e91a6a2481d0943038135285e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 12/22] fix: scale inclusive ranges to whole elements

An inclusive range ended at the first byte of its last element.
---
 src/index_slice.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index b202b48..03ccdd3 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -9,6 +9,12 @@ pub trait ScaleRange {
     fn scale_range(self, scale: usize) -> Self;
 }
 
+/// The last byte belonging to the element at index `end`.
+#[inline]
+fn scale_inclusive_end(end: usize, scale: usize) -> usize {
+    end.saturating_add(1).saturating_mul(scale).saturating_sub(1)
+}
+
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
@@ -45,14 +51,14 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start() * scale..=self.end() * scale
+        self.start().saturating_mul(scale)..=scale_inclusive_end(*self.end(), scale)
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_inclusive_end(self.end, scale);
         self
     }
 }
-- 
2.43.0


From cbfd682e6e8f7740d9b0f299fb35726aa5b102ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 13/22] fix: tie Slice::from_slice and SliceCopy::from_slice to
 their input

The lifetime of the returned slice was unconstrained, which allowed safe code to access
the elements after they were freed.
---
 src/slice.rs      | 2 +-
 src/slice_copy.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 3cb7437..c29f7d2 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -47,7 +47,7 @@ impl<'a, V: ?Sized + HasDrop + HasDebug> fmt::Debug for Slice<'a, V> {
 impl<'a, V: HasDrop> Slice<'a, V> {
     /// Construct a `Slice` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: Elem>(slice: &[T]) -> Self
+    pub fn from_slice<T: Elem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 200c2e8..78c9885 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -29,7 +29,7 @@ where
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: CopyElem>(slice: &[T]) -> Self
+    pub fn from_slice<T: CopyElem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
@@ -39,7 +39,7 @@ impl<'a, V> SliceCopy<'a, V> {
 
     /// It is unsafe to call this for `T` that is not `Copy`.
     #[inline]
-    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &[T]) -> Self
+    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
-- 
2.43.0


From 75f6721da1c5cd018e34f16604832e0c45846a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 14/22] fix: require Sync elements to send ValueRef,
 CopyValueRef and Slice

These types are shared references, but they were Send whenever their elements were Send,
which allowed safe code to race on types like Cell.
---
 src/slice.rs |  3 ++-
 src/value.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index c29f7d2..6ccee93 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -329,7 +329,8 @@ where
     }
 }
 
-unsafe impl<'a, V: ?Sized + HasDrop + HasSend> Send for Slice<'a, V> {}
+// Sending a shared reference requires the referenced elements to be `Sync`.
+unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Send for Slice<'a, V> {}
 unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Sync for Slice<'a, V> {}
 
 /*
diff --git a/src/value.rs b/src/value.rs
index 0b12db1..f010745 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -414,8 +414,8 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
 }
 
 macro_rules! impl_value_ref_traits {
-    ($value_ref:ident : $($maybe_drop:ident)*) => {
-        unsafe impl<'a, V: ?Sized + HasSend $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
+    ($value_ref:ident : $has_send:ident; $($maybe_drop:ident)*) => {
+        unsafe impl<'a, V: ?Sized + $has_send $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
         unsafe impl<'a, V: ?Sized + HasSync $( + $maybe_drop)*> Sync for $value_ref<'a, V> {}
 
         impl<'a, V: ?Sized + HasHash $( + $maybe_drop)*> Hash for $value_ref<'a, V> {
@@ -452,8 +452,9 @@ macro_rules! impl_value_ref_traits {
 }
 
 // Impl value ref traits for CopyValue types.
-impl_value_ref_traits!(CopyValueMut:);
-impl_value_ref_traits!(CopyValueRef:);
+impl_value_ref_traits!(CopyValueMut: HasSend;);
+// Sending a shared reference requires the referenced value to be `Sync`.
+impl_value_ref_traits!(CopyValueRef: HasSync;);
 
 /// A generic value reference into a buffer.
 #[derive(Clone)]
@@ -467,7 +468,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueRef: HasDrop);
+impl_value_ref_traits!(ValueRef: HasSync; HasDrop);
 
 impl<'a, V: HasDrop> ValueRef<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
@@ -627,7 +628,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueMut: HasDrop);
+impl_value_ref_traits!(ValueMut: HasSend; HasDrop);
 
 impl<'a, V: HasDrop> ValueMut<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
-- 
2.43.0


From 546e616a71f680e5e8716f0835286e5059cd1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 15/22] fix: make the builtin Send, Sync and Eq vtables
 represent their traits

SendVTable, SyncVTable and EqVTable could be built for types that do not implement the
respective trait, and containers using SendVTable or SyncVTable were neither Send nor
Sync.
---
 src/traits.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 79db2c4..e04d1b8 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -190,7 +190,7 @@ impl<T: DropBytes + PartialEqBytes> VTable<T> for PartialEqVTable {
     }
 }
 
-impl<T: DropBytes + PartialEqBytes> VTable<T> for EqVTable {
+impl<T: DropBytes + PartialEqBytes + Eq> VTable<T> for EqVTable {
     fn build_vtable() -> Self {
         EqVTable(T::drop_bytes, T::eq_bytes)
     }
@@ -202,13 +202,13 @@ impl<T: DropBytes + HashBytes> VTable<T> for HashVTable {
     }
 }
 
-impl<T: DropBytes> VTable<T> for SendVTable {
+impl<T: DropBytes + Send> VTable<T> for SendVTable {
     fn build_vtable() -> Self {
         SendVTable(T::drop_bytes)
     }
 }
 
-impl<T: DropBytes> VTable<T> for SyncVTable {
+impl<T: DropBytes + Sync> VTable<T> for SyncVTable {
     fn build_vtable() -> Self {
         SyncVTable(T::drop_bytes)
     }
@@ -275,6 +275,12 @@ impl HasPartialEq for EqVTable {
 
 impl HasEq for EqVTable {}
 
+// SAFETY: A `SendVTable` can only be built for types that are `Send`.
+unsafe impl HasSend for SendVTable {}
+
+// SAFETY: A `SyncVTable` can only be built for types that are `Sync`.
+unsafe impl HasSync for SyncVTable {}
+
 impl HasDebug for DebugVTable {
     fn fmt_fn(&self) -> &FmtFn {
         &self.1
-- 
2.43.0


From 37682d314b7cbbcc7aab5e2d94546647f5306dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 16/22] fix: keep padding and pointers intact when rotating

Elements were rotated as arrays of u8, so padding bytes and pointers inside
of elements went through typed copies as initialised integers, which is
undefined behaviour (reported by Miri).
---
 src/elem.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elem.rs b/src/elem.rs
index 3430ea9..0d30497 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -4,7 +4,7 @@
 
 use std::{
     any::{Any, TypeId},
-    mem::{align_of, size_of},
+    mem::{align_of, size_of, MaybeUninit},
 };
 
 macro_rules! generate_aligned_types {
@@ -12,11 +12,11 @@ macro_rules! generate_aligned_types {
 	$(
 	    #[derive(Copy, Clone, Debug)]
 	    #[repr(C, align($n))]
-	    pub(crate) struct $t([u8; $n]);
+	    pub(crate) struct $t([MaybeUninit<u8>; $n]);
 
         impl Default for $t {
             fn default() -> Self {
-                $t([0_u8; $n])
+                $t([MaybeUninit::new(0_u8); $n])
             }
         }
 	)*
-- 
2.43.0


From 554f1d6624a8dd55110e354d7a67e552a88830a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 17/22] fix: check bounds when swapping an element with itself

swap(i, i) with i out of bounds was silently accepted instead of panicking
like a slice does.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e52c6a6..ecf858e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,10 +223,11 @@ pub(crate) trait ElementBytesMut: ElementBytes {
 
     /// Swap elements at indicies `i` and `j` represented by the bytes.
     ///
-    /// If `i` is the same as `j` this function does nothing.
+    /// If `i` is the same as `j` this function only checks that `i` is in bounds.
     #[inline]
     fn swap(&mut self, i: usize, j: usize) {
         if i == j {
+            self.index_byte_slice(i);
             return;
         }
         let element_size = self.element_size();
-- 
2.43.0


From 0ac1b64eaec2f54ae72d984dda73d3b7b8114524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 18/22] fix: keep an exhausted inclusive range empty when it is
 scaled

---
 src/index_slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 03ccdd3..40fe277 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -51,7 +51,12 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start().saturating_mul(scale)..=scale_inclusive_end(*self.end(), scale)
+        let end = scale_inclusive_end(*self.end(), scale);
+        if self.is_empty() && self.start() <= self.end() {
+            // The range was iterated to exhaustion, nothing is left past its end.
+            return end.saturating_add(1)..=end;
+        }
+        self.start().saturating_mul(scale)..=end
     }
 }
 
-- 
2.43.0


From f0f51eff6f4fea47bcdd854b38065e7cb60fbf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 19/22] fix: drop the contents when from_dyn fails

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ecf858e..8c8b523 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -91,8 +91,14 @@ macro_rules! from_dyn {
                 let (data, vtable) = vec.into_raw_parts();
                 // If vtables were shared with Rc, we would use this:
                 //let updated_vtable: std::rc::Rc<V> = vtable.downcast_rc().ok().unwrap();
-                let updated_vtable: Box<V> = vtable.downcast().ok().unwrap();
-                $vec::from_raw_parts(data, updated_vtable)
+                match vtable.downcast::<V>() {
+                    Ok(updated_vtable) => $crate::$vec::from_raw_parts(data, updated_vtable),
+                    Err(vtable) => {
+                        // Put the container back together to drop its contents.
+                        drop($crate::$vec::from_raw_parts(data, vtable));
+                        panic!("the vtable has a different type")
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 68116e12c0a1a9533294a60e63d7cf81368fa04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 20/22] fix: allow from_dyn for slices and into_dyn for
 SliceMut

---
 src/lib.rs   | 10 +++++-----
 src/slice.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8c8b523..01d4c32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -104,18 +104,18 @@ macro_rules! from_dyn {
 
         from_dyn::<$vtable>
     }};
-    (@slice $slice:ident < dyn $trait:path >) => {{
-        fn from_dyn<'a, V: ?Sized + HasDrop + std::any::Any>(slice: $crate::$slice<'a, V>) -> $crate::$slice<'a, $vtable> {
+    (@slice $slice:ident < dyn $trait:path as $vtable:path >) => {{
+        fn from_dyn<'a>(slice: $crate::$slice<'a, dyn $trait>) -> $crate::$slice<'a, $vtable> {
             unsafe {
                 let (data, elem, vtable) = slice.into_raw_parts();
                 match vtable {
                     $crate::VTableRef::Ref(v) => {
                         let updated_vtable: &$vtable = v.downcast_ref().unwrap();
-                        $slice::from_raw_parts(data, elem, updated_vtable)
+                        $crate::$slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     $crate::VTableRef::Box(v) => {
-                        let updated_vtable: Box<$vtable> = v.downcast().unwrap();
-                        $slice::from_raw_parts(data, elem, updated_vtable)
+                        let updated_vtable: Box<$vtable> = v.downcast().ok().unwrap();
+                        $crate::$slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     // $crate::VTableRef::Rc(v) => {
                     //     let updated_vtable: std::rc::Rc<$vtable> = v.downcast().unwrap();
diff --git a/src/slice.rs b/src/slice.rs
index 6ccee93..b629faf 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -377,7 +377,7 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
     /// This function exists mainly to enable the `into_dyn` macro until `CoerceUnsized` is
     /// stabilized.
     #[inline]
-    pub fn into_raw_parts(self) -> (&'a [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
+    pub fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
         let SliceCopyMut { data, elem, vtable } = self.data;
         (data, elem, vtable)
     }
-- 
2.43.0


From 1165e6fbb0464bef821b597dfc4b6b502c9e775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:41 +0000
Subject: [PATCH 21/22] fix: do not let iterators be sent without the
 capability to

The iterators of VecDyn::iter_mut, Slice and SliceMut captured bytes, lengths
and tables only, which are Send and Sync on their own: a view of elements that
can not be sent could be iterated over in another thread.
---
 src/slice.rs   | 37 ++++++++++++++++++++++++++++---------
 src/vec_dyn.rs |  4 ++++
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index b629faf..dd6b80f 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -1,6 +1,7 @@
 use std::{
     any::{Any, TypeId},
     fmt,
+    marker::PhantomData,
     mem::MaybeUninit,
     slice,
 };
@@ -223,17 +224,23 @@ impl<'a, V: ?Sized + HasDrop> Slice<'a, V> {
         V: Clone,
     {
         let SliceCopy { data, elem, vtable } = self.data;
+        // The iterator may go to another thread only where its items may.
+        let marker = PhantomData::<ValueRef<'a, V>>;
         data.chunks_exact(elem.num_bytes())
             .map(move |bytes| unsafe {
+                let _marker = marker;
                 ValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
             })
     }
 
     #[inline]
     pub fn chunks_exact(&self, chunk_size: usize) -> impl Iterator<Item = Slice<V>> {
-        self.data
-            .chunks_exact(chunk_size)
-            .map(|data| Slice { data })
+        // The iterator may go to another thread only where its items may.
+        let marker = PhantomData::<Slice<V>>;
+        self.data.chunks_exact(chunk_size).map(move |data| {
+            let _marker = marker;
+            Slice { data }
+        })
     }
 
     #[inline]
@@ -570,8 +577,11 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
             elem,
             ref vtable,
         } = self.data;
+        // The iterator may go to another thread only where its items may.
+        let marker = PhantomData::<ValueMut<V>>;
         data.chunks_exact_mut(elem.num_bytes())
             .map(move |bytes| unsafe {
+                let _marker = marker;
                 ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
             })
     }
@@ -583,24 +593,33 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
         V: Clone,
     {
         let SliceCopyMut { data, elem, vtable } = self.data;
+        // The iterator may go to another thread only where its items may.
+        let marker = PhantomData::<ValueMut<'a, V>>;
         data.chunks_exact_mut(elem.num_bytes())
             .map(move |bytes| unsafe {
+                let _marker = marker;
                 ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
             })
     }
 
     #[inline]
     pub fn chunks_exact(&self, chunk_size: usize) -> impl Iterator<Item = Slice<V>> {
-        self.data
-            .chunks_exact(chunk_size)
-            .map(|data| Slice { data })
+        // The iterator may go to another thread only where its items may.
+        let marker = PhantomData::<Slice<V>>;
+        self.data.chunks_exact(chunk_size).map(move |data| {
+            let _marker = marker;
+            Slice { data }
+        })
     }
 
     #[inline]
     pub fn chunks_exact_mut(&mut self, chunk_size: usize) -> impl Iterator<Item = SliceMut<V>> {
-        self.data
-            .chunks_exact_mut(chunk_size)
-            .map(|data| SliceMut { data })
+        // The iterator may go to another thread only where its items may.
+        let marker = PhantomData::<SliceMut<V>>;
+        self.data.chunks_exact_mut(chunk_size).map(move |data| {
+            let _marker = marker;
+            SliceMut { data }
+        })
     }
 
     #[inline]
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index c0ca599..403870f 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -49,6 +49,7 @@
 use std::{
     any::{Any, TypeId},
     fmt,
+    marker::PhantomData,
     mem::{ManuallyDrop, MaybeUninit},
     slice,
 };
@@ -563,8 +564,11 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         let vtable = vtable.as_ref();
         let element_type_id = data.elem.type_id;
         let element_alignment = data.elem.alignment;
+        // The iterator may go to another thread only where its items may.
+        let marker = PhantomData::<ValueMut<V>>;
         unsafe {
             data.byte_chunks_mut().map(move |bytes| {
+                let _marker = marker;
                 ValueMut::from_raw_parts(bytes, element_type_id, element_alignment, vtable)
             })
         }
-- 
2.43.0


From 99401689455f680c87e5ab70c6d01d571d2f2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:05 +0000
Subject: [PATCH 22/22] fix: require the standard marker traits of elements a
 table claims them for

A trait of the user's own called Send, Sync or Eq among the super traits made
the table claim HasSend, HasSync or HasEq for elements that lack the trait of
the standard library.
---
 dync-derive/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index dc373ad..3a683ad 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -588,13 +588,25 @@ fn construct_dync_items(
 
     let crate_name_ident = Ident::new(&crate_name, Span::call_site());
 
+    // Traits without methods: the table claims them by its mere existence, so make sure that these
+    // are the traits of the standard library and not some of the same name.
+    let mut marker_bounds = TokenStream::new();
+    for super_trait_key in trait_data.super_traits.iter() {
+        marker_bounds.append_all(match super_trait_key {
+            Trait::Eq => quote! { + ::std::cmp::Eq },
+            Trait::Send => quote! { + ::std::marker::Send },
+            Trait::Sync => quote! { + ::std::marker::Sync },
+            _ => TokenStream::new(),
+        });
+    }
+
     let mut res = has_impls;
     res.push(parse_quote! {
         #crate_name_ident::downcast::impl_downcast!(#has_trait);
     });
     res.push(vtable_def);
     res.push(parse_quote! {
-        impl<T: #trait_name + 'static> #crate_name_ident::VTable<T> for #vtable_name {
+        impl<T: #trait_name + 'static #marker_bounds> #crate_name_ident::VTable<T> for #vtable_name {
             #[inline]
             fn build_vtable() -> #vtable_name {
                 #vtable_name(#vtable_constructor)
-- 
2.43.0

