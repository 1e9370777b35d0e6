From 7eff742c1951f5029aacae8a73264074e844ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 01/17] fix: never deallocate a `Heap` buffer that was not
 allocated

Dropping an empty or zero-sized-type `HeapVec` freed a dangling pointer,
and `Heap::with_capacity(0)` allocated a zero-sized buffer.
---
 src/raw/heap/nightly.rs | 7 +++++--
 src/raw/heap/stable.rs  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index 01482e7..a143163 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -37,7 +37,10 @@ impl<T, A: ?Sized + Allocator> Drop for Heap<T, A> {
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
-            self.allocator.deallocate(self.ptr.cast(), layout);
+            // no memory is allocated for zero-sized buffers
+            if layout.size() != 0 {
+                self.allocator.deallocate(self.ptr.cast(), layout);
+            }
         }
     }
 }
@@ -155,7 +158,7 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
 
 impl<T, A: Default + Allocator> Heap<T, A> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::default()
         }
 
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index db7732b..94b0399 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -32,7 +32,10 @@ impl<T> Drop for Heap<T> {
         unsafe {
             let layout = Layout::new::<T>();
             let layout = Layout::from_size_align_unchecked(layout.size() * self.capacity, layout.align());
-            dealloc(self.ptr.as_ptr().cast(), layout);
+            // no memory is allocated for zero-sized buffers
+            if layout.size() != 0 {
+                dealloc(self.ptr.as_ptr().cast(), layout);
+            }
         }
     }
 }
@@ -135,7 +138,7 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
 
 impl<T> Heap<T> {
     fn with_capacity(capacity: usize) -> Self {
-        if core::mem::size_of::<T>() == 0 {
+        if core::mem::size_of::<T>() == 0 || capacity == 0 {
             return Self::new()
         }
 
-- 
2.43.0


From 25923b3b3ae2507f68d700aaa88b3c6755777db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 02/17] fix: reject `index == len` in `remove`, `swap_remove`
 and `try_remove`

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fc6e8ed..5c7962f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1114,7 +1114,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             remove_fail(index, self.len())
         }
 
@@ -1169,7 +1169,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             panic!("Tried to remove an element at {}, but length is {}", index, len);
         }
 
-        if index > self.len() {
+        if index >= self.len() {
             swap_remove_fail(index, self.len())
         }
 
@@ -1284,7 +1284,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     ///
     /// Guaranteed to not panic/abort/allocate
     pub fn try_remove(&mut self, index: usize) -> Option<T> {
-        if self.len() < index {
+        if self.len() <= index {
             None
         } else {
             // Safety
@@ -1520,7 +1520,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
         let len = self.len();
 
         debug_assert!(
-            index <= len,
+            index < len,
             "Tried to remove an element at index {} from a {} length vector! This is UB in release mode",
             index,
             len,
-- 
2.43.0


From e495e9c81add6ac41a85ee4b1ecae689cecd0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 03/17] fix: `try_pop_array` returns `None` if there are less
 than `N` elements

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c7962f..46276a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1268,7 +1268,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     /// Guaranteed to not panic/abort/allocate
     #[cfg(any(doc, feature = "nightly"))]
     pub fn try_pop_array<const N: usize>(&mut self) -> Option<[T; N]> {
-        if self.is_empty() {
+        if self.len() < N {
             None
         } else {
             // Safety
-- 
2.43.0


From 07924fd9709f71ba6c01102e8285d6cee53ca70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 04/17] fix: allow `pop_array` and `remove_array` to take the
 last `N` elements in debug builds

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46276a8..c7e491e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1490,7 +1490,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         let len = self.len();
         debug_assert!(
-            len > N,
+            len >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
@@ -1561,7 +1561,7 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
             len,
         );
         debug_assert!(
-            len.wrapping_sub(index) > N,
+            len.wrapping_sub(index) >= N,
             "Tried to remove {} elements from a {} length vector! This is UB in release mode",
             N,
             len,
-- 
2.43.0


From 9c8c70563b928f02cfc703f44f54ff98dc6e0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 05/17] fix: `ArrayVec::from_array` creates a full `ArrayVec`

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7e491e..124c34d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -498,7 +498,7 @@ impl<T, const N: usize> ArrayVec<T, N> {
     /// Create a new full `ArrayVec`
     pub const fn from_array(array: [T; N]) -> Self {
         Self {
-            len: 0,
+            len: N,
             mark: PhantomData,
             storage: raw::UninitBuffer::new(array),
         }
-- 
2.43.0


From 7890d7582c11c67fbb1c7f10ae0dc8a57cd38ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 06/17] fix: `grow` of `Copy` elements appends instead of
 overwriting the start of the vector

---
 src/extension.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extension.rs b/src/extension.rs
index 59d1598..1391d5a 100644
--- a/src/extension.rs
+++ b/src/extension.rs
@@ -98,7 +98,7 @@ where
         unsafe {
             self.set_len_unchecked(len.wrapping_add(additional));
         }
-        let mut ptr = self.storage.as_mut_ptr();
+        let mut ptr = unsafe { self.as_mut_ptr().add(len) };
 
         for _ in 0..additional {
             unsafe {
-- 
2.43.0


From aea35b6e7b10d2caefa3e94b2b51c9872322cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 07/17] fix: `Cursor::try_write_front` writes only if there is
 an unfilled slot

---
 src/iter/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/cursor.rs b/src/iter/cursor.rs
index 12e5385..77f658c 100644
--- a/src/iter/cursor.rs
+++ b/src/iter/cursor.rs
@@ -233,10 +233,10 @@ impl<'a, T, S: ?Sized + Storage<T>> Cursor<'a, T, S> {
     #[inline]
     pub fn try_write_front(&mut self, value: T) -> Result<(), T> {
         if self.is_write_front_empty() {
+            Err(value)
+        } else {
             unsafe { self.raw.write_front(value) }
             Ok(())
-        } else {
-            Err(value)
         }
     }
 
-- 
2.43.0


From 585fc80a2b7f46db5c2fd2a7517e2f696c510bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 08/17] fix: `RawCursor::finish` leaves the cursor in a valid
 state

The second `finish` (on drop) moved the tail of the vector again, which
duplicated and lost elements.
---
 src/iter/raw_cursor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index aebccdf..8c90619 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -75,6 +75,7 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = self.old_vec_len.wrapping_sub(self.write_back as usize);
                 let len = front_len + back_len;
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             } else {
                 let start = self.vec.as_mut().as_mut_ptr();
                 let range = start..start.add(self.old_vec_len);
@@ -88,7 +89,13 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 }
 
                 self.vec.as_mut().set_len_unchecked(len);
+                self.old_vec_len = len;
             }
+
+            // the gap is closed, so there are no elements or unfilled slots left
+            self.read_front = self.write_front;
+            self.read_back = self.write_front;
+            self.write_back = self.write_front;
         }
     }
 
@@ -692,6 +699,11 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                     self.read_back = start.add(rb);
                 }
 
+                // don't expose the unfilled slots if the cursor is leaked after `finish`
+                if self.vec.as_ref().len() > front_len {
+                    self.vec.as_mut().set_len_unchecked(front_len);
+                }
+
                 let increase_by = space.wrapping_sub(write_space);
                 let new_write_back = self.write_back.add(increase_by);
                 new_write_back.copy_from(self.write_back, back_len);
-- 
2.43.0


From 8aa3d51824650aa4c09c9ee8b46b6a9d6164833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 09/17] fix: `splice` with an empty range at the end of the
 vector keeps the new elements

---
 src/iter/raw_cursor.rs | 11 +++++++++--
 src/iter/splice.rs     |  3 +--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 8c90619..0e3a941 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -108,8 +108,15 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
         }
     }
 
-    /// Get a mutable reference to the underlying vector
-    pub(crate) unsafe fn vec_mut(&mut self) -> &mut GenericVec<T, S> { unsafe { self.vec.as_mut() } }
+    /// Finish this cursor and get a mutable reference to the underlying vector
+    ///
+    /// The cursor may not be used after this, it can only be dropped
+    pub(crate) unsafe fn finish_into_vec(&mut self) -> &mut GenericVec<T, S> {
+        self.finish();
+        // don't restore the length of the vector on drop
+        self.old_vec_len = 0;
+        unsafe { self.vec.as_mut() }
+    }
 
     /// The number of remaining elements in range of this `RawCursor`
     ///
diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index 658764b..4347eab 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -37,8 +37,7 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
         }
 
         if raw.at_back_of_vec() {
-            self.raw.finish();
-            unsafe { self.raw.vec_mut().extend(replace_with) }
+            unsafe { raw.finish_into_vec().extend(replace_with) }
             return
         }
 
-- 
2.43.0


From 30efca193fefdc7efa7e56465eb5e92314740f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 10/17] fix: don't leak zero-sized elements if the iterator of
 `splice` panics

---
 src/iter/splice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iter/splice.rs b/src/iter/splice.rs
index 4347eab..b1f0fae 100644
--- a/src/iter/splice.rs
+++ b/src/iter/splice.rs
@@ -27,8 +27,9 @@ impl<T, S: ?Sized + Storage<T>, I: Iterator<Item = T>> Drop for Splice<'_, T, S,
 
         if let Some(storage) = crate::raw::ZeroSized::TRY_NEW {
             unsafe {
-                let mut vec = ManuallyDrop::new(crate::ZSVec::with_storage(storage));
+                let mut vec = crate::ZSVec::with_storage(storage);
                 vec.extend(replace_with);
+                let vec = ManuallyDrop::new(vec);
                 let len = vec.len();
                 raw.reserve(len);
                 raw.write_slice_front(vec.as_slice());
-- 
2.43.0


From 2eb76593380cc990f205305174c16ed21645af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 11/17] fix: saturate the capacity of storages that store
 larger items than their own

The capacity was truncated, so reserving `1 << 62` items of `[u64; 4]` in a
`Heap<u64>` succeeded without reserving anything.
---
 src/raw/capacity.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/raw/capacity.rs b/src/raw/capacity.rs
index b37f5d0..32cff4c 100644
--- a/src/raw/capacity.rs
+++ b/src/raw/capacity.rs
@@ -57,11 +57,12 @@ pub(in crate::raw) const fn capacity(old_capacity: usize, size_self: usize, size
         Round::Down => size,
     };
 
-    // this can't overflow pow2(n)
-    //
-    // size = 0..=(pow2(2 * n) - pow2(n) - 1)
-    // size / size_other = 0..=(pow2(2 * n) - pow2(n) - 1) / pow2(n)
-    //                   = 0..=(pow2(n) - 1 - 1 / pow2(n)) < pow2(n)
-    //
-    (size / (size_other as PointerNext)) as usize
+    // this can overflow pow2(n) if `size_other` is smaller than `size_self`
+    let capacity = size / (size_other as PointerNext);
+
+    if capacity > usize::MAX as PointerNext {
+        usize::MAX
+    } else {
+        capacity as usize
+    }
 }
-- 
2.43.0


From 520ee71edac8ee93f8c73120518ee4ad0abeb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 12/17] fix: storages of a zero-sized type have no space for
 larger items

`reserve` on a `Heap<()>` that stores `u8`s succeeded without any space,
and so did `UninitSlice<()>` with `usize::MAX` items.
---
 src/raw/heap/nightly.rs | 21 ++++++++++++++++++++-
 src/raw/heap/stable.rs  | 21 ++++++++++++++++++++-
 src/raw/slice.rs        |  6 +++---
 3 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index a143163..ce72805 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -1,5 +1,5 @@
 use crate::raw::{
-    capacity::{capacity, Round},
+    capacity::{capacity, fixed_capacity_reserve_error, Round},
     Storage, StorageWithCapacity,
 };
 
@@ -140,6 +140,15 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
+        if size_of::<T>() == 0 {
+            // a zero-sized `T` can't provide space for larger items
+            let capacity = Storage::<U>::capacity(self);
+            if new_capacity > capacity {
+                fixed_capacity_reserve_error(capacity, new_capacity)
+            }
+            return
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
@@ -147,6 +156,10 @@ unsafe impl<T, U, A: ?Sized + Allocator> Storage<U> for Heap<T, A> {
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
+        if size_of::<T>() == 0 {
+            return new_capacity <= Storage::<U>::capacity(self)
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             self.reserve_slow(new_capacity, OnFailure::Error)
@@ -182,6 +195,12 @@ impl<T, A: Default + Allocator> Heap<T, A> {
 
 unsafe impl<T, U, A: Default + Allocator> StorageWithCapacity<U> for Heap<T, A> {
     fn with_capacity(cap: usize) -> Self {
+        if size_of::<T>() == 0 {
+            let mut heap = Self::default();
+            Storage::<U>::reserve(&mut heap, cap);
+            return heap
+        }
+
         Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
     }
 }
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 94b0399..9c83030 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -1,5 +1,5 @@
 use crate::raw::{
-    capacity::{capacity, Round},
+    capacity::{capacity, fixed_capacity_reserve_error, Round},
     Storage, StorageWithCapacity,
 };
 
@@ -81,6 +81,15 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.ptr.as_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
+        if size_of::<T>() == 0 {
+            // a zero-sized `T` can't provide space for larger items
+            let capacity = Storage::<U>::capacity(self);
+            if new_capacity > capacity {
+                fixed_capacity_reserve_error(capacity, new_capacity)
+            }
+            return
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             let _ = self.reserve_slow(new_capacity, OnFailure::Abort);
@@ -88,6 +97,10 @@ unsafe impl<T, U> Storage<U> for Heap<T> {
     }
 
     fn try_reserve(&mut self, new_capacity: usize) -> bool {
+        if size_of::<T>() == 0 {
+            return new_capacity <= Storage::<U>::capacity(self)
+        }
+
         let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
         if self.capacity < new_capacity {
             self.reserve_slow(new_capacity, OnFailure::Error)
@@ -160,6 +173,12 @@ impl<T> Heap<T> {
 
 unsafe impl<T, U> StorageWithCapacity<U> for Heap<T> {
     fn with_capacity(cap: usize) -> Self {
+        if size_of::<T>() == 0 {
+            let mut heap = Self::default();
+            Storage::<U>::reserve(&mut heap, cap);
+            return heap
+        }
+
         Self::with_capacity(capacity(cap, size_of::<U>(), size_of::<T>(), Round::Up))
     }
 }
diff --git a/src/raw/slice.rs b/src/raw/slice.rs
index d58085c..7cfe2c0 100644
--- a/src/raw/slice.rs
+++ b/src/raw/slice.rs
@@ -54,9 +54,9 @@ unsafe impl<T, U> Storage<U> for UninitSlice<T> {
     fn as_mut_ptr(&mut self) -> *mut U { self.0.as_mut_ptr().cast() }
 
     fn reserve(&mut self, new_capacity: usize) {
-        let new_capacity = capacity(new_capacity, size_of::<U>(), size_of::<T>(), Round::Up);
-        if new_capacity > self.0.len() {
-            fixed_capacity_reserve_error(self.0.len(), new_capacity)
+        let capacity = Storage::<U>::capacity(self);
+        if new_capacity > capacity {
+            fixed_capacity_reserve_error(capacity, new_capacity)
         }
     }
 
-- 
2.43.0


From 64ab1f6d234a19b2eedae10ab320e3876ebdb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 13/17] fix: `try_reserve` returns `false` if the new capacity
 is too large for any allocation

---
 src/raw/heap/nightly.rs |  6 +++++-
 src/raw/heap/stable.rs  | 11 +++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/raw/heap/nightly.rs b/src/raw/heap/nightly.rs
index ce72805..77b1bd4 100644
--- a/src/raw/heap/nightly.rs
+++ b/src/raw/heap/nightly.rs
@@ -215,7 +215,11 @@ impl<T, A: ?Sized + Allocator> Heap<T, A> {
         let new_capacity = new_capacity
             .max(self.capacity.checked_mul(2).expect("Could not grow further"))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = Layout::new::<T>().repeat(new_capacity).expect("Invalid layout").0;
+        let layout = match (Layout::new::<T>().repeat(new_capacity), &on_failure) {
+            (Ok((layout, _)), _) => layout,
+            (Err(_), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(_), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             self.allocator.allocate(layout)
diff --git a/src/raw/heap/stable.rs b/src/raw/heap/stable.rs
index 9c83030..316218c 100644
--- a/src/raw/heap/stable.rs
+++ b/src/raw/heap/stable.rs
@@ -144,9 +144,8 @@ pub fn repeat(layout: Layout, n: usize) -> Result<Layout, ()> {
     let padded_size = layout.size() + padding_needed_for(layout, layout.align());
     let alloc_size = padded_size.checked_mul(n).ok_or(())?;
 
-    // SAFETY: self.align is already known to be valid and alloc_size has been
-    // padded already.
-    unsafe { Ok(Layout::from_size_align_unchecked(alloc_size, layout.align())) }
+    // alloc_size has been padded already, but it can still be too large
+    Layout::from_size_align(alloc_size, layout.align()).map_err(drop)
 }
 
 impl<T> Heap<T> {
@@ -193,7 +192,11 @@ impl<T> Heap<T> {
         let new_capacity = new_capacity
             .max(self.capacity.checked_mul(2).expect("Could not grow further"))
             .max(super::INIT_ALLOC_CAPACITY);
-        let layout = repeat(Layout::new::<T>(), new_capacity).expect("Invalid layout");
+        let layout = match (repeat(Layout::new::<T>(), new_capacity), &on_failure) {
+            (Ok(layout), _) => layout,
+            (Err(()), OnFailure::Abort) => panic!("Invalid layout"),
+            (Err(()), OnFailure::Error) => return false,
+        };
 
         let ptr = if self.capacity == 0 {
             unsafe { alloc(layout) }
-- 
2.43.0


From 55f5d5b1ec314559d0afcc065b40265ca6775bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 14/17] fix: panic if the capacity overflows in
 `Cursor::reserve`

It wrapped around in release builds, and left an out of bounds cursor.
---
 src/iter/raw_cursor.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/iter/raw_cursor.rs b/src/iter/raw_cursor.rs
index 0e3a941..b874633 100644
--- a/src/iter/raw_cursor.rs
+++ b/src/iter/raw_cursor.rs
@@ -666,14 +666,23 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
     /// * May panic if the underlying [`GenericVec`] cannot
     ///   reserve more space
     pub fn reserve(&mut self, space: usize) {
+        #[cold]
+        #[inline(never)]
+        fn capacity_overflow(space: usize) -> ! {
+            panic!("Tried to reserve {} unfilled slots and failed", space)
+        }
+
         assert!(self.is_empty(), "You can only call `reserve` on a empty `RawCursor`");
         unsafe {
             if Self::IS_ZS {
                 let write_space = (self.write_back as usize).wrapping_sub(self.write_front as usize);
 
                 if let Some(increase_by) = space.checked_sub(write_space) {
+                    self.old_vec_len = match self.old_vec_len.checked_add(increase_by) {
+                        Some(old_vec_len) => old_vec_len,
+                        None => capacity_overflow(space),
+                    };
                     self.write_back = (self.write_back as usize).wrapping_add(increase_by) as _;
-                    self.old_vec_len += increase_by;
                 }
             } else {
                 let write_space = self.write_back.offset_from(self.write_front) as usize;
@@ -690,14 +699,19 @@ impl<'a, T, S: ?Sized + Storage<T>> RawCursor<'a, T, S> {
                 let back_len = range.end.offset_from(self.write_back) as usize;
                 let len = front_len + back_len;
 
-                if len + space > capacity {
+                let new_len = match len.checked_add(space) {
+                    Some(new_len) => new_len,
+                    None => capacity_overflow(space),
+                };
+
+                if new_len > capacity {
                     let wf = self.write_front.offset_from(range.start) as usize;
                     let wb = self.write_back.offset_from(range.start) as usize;
                     let rf = self.read_front.offset_from(range.start) as usize;
                     let rb = self.read_back.offset_from(range.start) as usize;
 
                     let vec = self.vec.as_mut();
-                    vec.storage.reserve(len + space);
+                    vec.storage.reserve(new_len);
 
                     let start = vec.as_mut_ptr();
                     self.write_front = start.add(wf);
-- 
2.43.0


From eddf922fb4fec43ebe1e8a2d9779150f76411e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 15/17] fix: `GenericVec::from_raw_parts` panics if the storage
 is not aligned, as documented

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 124c34d..2ddd4f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,6 +608,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     /// If the given storage cannot hold type `T`, then this method will panic
     #[cfg(not(feature = "nightly"))]
     pub unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
@@ -631,6 +632,7 @@ impl<T, S: Storage<T>> GenericVec<T, S> {
     ///
     /// If the given storage cannot hold type `T`, then this method will panic
     pub const unsafe fn from_raw_parts(len: usize, storage: S) -> Self {
+        assert!(S::IS_ALIGNED, "The storage must be aligned to `T`");
         Self {
             storage,
             len,
-- 
2.43.0


From 3df338a4f0384ef7689f405618d995739efd5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 16/17] fix: arrays of zero-sized types have an unlimited
 capacity, like all other storages

---
 src/raw/array.rs         |  9 +++++++++
 src/raw/array/nightly.rs | 17 +++++++++--------
 src/raw/array/stable.rs  | 17 +++++++++--------
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/raw/array.rs b/src/raw/array.rs
index 8bd12fa..aad7e95 100644
--- a/src/raw/array.rs
+++ b/src/raw/array.rs
@@ -3,3 +3,12 @@ mod nightly;
 
 #[cfg(not(feature = "nightly"))]
 mod stable;
+
+/// The number of `T`s that fit into an array of length `n`, zero-sized types don't need any space
+const fn array_capacity<T>(n: usize) -> usize {
+    if core::mem::size_of::<T>() == 0 {
+        usize::MAX
+    } else {
+        n
+    }
+}
diff --git a/src/raw/array/nightly.rs b/src/raw/array/nightly.rs
index d26abef..d68f805 100644
--- a/src/raw/array/nightly.rs
+++ b/src/raw/array/nightly.rs
@@ -1,3 +1,4 @@
+use super::array_capacity;
 use crate::raw::{Storage, StorageWithCapacity};
 
 unsafe impl<T: Copy, const N: usize> crate::raw::StorageInit<T> for [T; N] {}
@@ -6,8 +7,8 @@ where
     Self: Default,
 {
     fn with_capacity(capacity: usize) -> Self {
-        if capacity > N {
-            crate::raw::capacity::fixed_capacity_reserve_error(N, capacity)
+        if capacity > array_capacity::<T>(N) {
+            crate::raw::capacity::fixed_capacity_reserve_error(array_capacity::<T>(N), capacity)
         }
 
         Self::default()
@@ -18,7 +19,7 @@ where
     #[allow(non_snake_case)]
     fn __with_capacity__const_capacity_checked(capacity: usize, old_capacity: Option<usize>) -> Self {
         match old_capacity {
-            Some(old_capacity) if old_capacity <= N => Self::default(),
+            Some(old_capacity) if old_capacity <= array_capacity::<T>(N) => Self::default(),
             _ => Self::with_capacity(capacity),
         }
     }
@@ -26,20 +27,20 @@ where
 
 unsafe impl<T: Copy, const N: usize> Storage<T> for [T; N] {
     #[doc(hidden)]
-    const CONST_CAPACITY: Option<usize> = Some(N);
+    const CONST_CAPACITY: Option<usize> = Some(array_capacity::<T>(N));
     const IS_ALIGNED: bool = true;
 
-    fn capacity(&self) -> usize { N }
+    fn capacity(&self) -> usize { array_capacity::<T>(N) }
 
     fn as_ptr(&self) -> *const T { self[..].as_ptr().cast() }
 
     fn as_mut_ptr(&mut self) -> *mut T { self[..].as_mut_ptr().cast() }
 
     fn reserve(&mut self, capacity: usize) {
-        if capacity > N {
-            crate::raw::capacity::fixed_capacity_reserve_error(N, capacity)
+        if capacity > array_capacity::<T>(N) {
+            crate::raw::capacity::fixed_capacity_reserve_error(array_capacity::<T>(N), capacity)
         }
     }
 
-    fn try_reserve(&mut self, capacity: usize) -> bool { capacity <= N }
+    fn try_reserve(&mut self, capacity: usize) -> bool { capacity <= array_capacity::<T>(N) }
 }
diff --git a/src/raw/array/stable.rs b/src/raw/array/stable.rs
index 18daa4b..5e3937c 100644
--- a/src/raw/array/stable.rs
+++ b/src/raw/array/stable.rs
@@ -1,3 +1,4 @@
+use super::array_capacity;
 use crate::raw::{Storage, StorageWithCapacity};
 
 macro_rules! array {
@@ -8,8 +9,8 @@ macro_rules! array {
             Self: Default,
         {
             fn with_capacity(capacity: usize) -> Self {
-                if capacity > $N {
-                    crate::raw::capacity::fixed_capacity_reserve_error($N, capacity)
+                if capacity > array_capacity::<T>($N) {
+                    crate::raw::capacity::fixed_capacity_reserve_error(array_capacity::<T>($N), capacity)
                 }
 
                 Self::default()
@@ -20,7 +21,7 @@ macro_rules! array {
             #[allow(non_snake_case)]
             fn __with_capacity__const_capacity_checked(capacity: usize, old_capacity: Option<usize>) -> Self {
                 match old_capacity {
-                    Some(old_capacity) if old_capacity <= $N => Self::default(),
+                    Some(old_capacity) if old_capacity <= array_capacity::<T>($N) => Self::default(),
                     _ => Self::with_capacity(capacity),
                 }
             }
@@ -28,23 +29,23 @@ macro_rules! array {
 
         unsafe impl<T: Copy> Storage<T> for [T; $N] {
             #[doc(hidden)]
-            const CONST_CAPACITY: Option<usize> = Some($N);
+            const CONST_CAPACITY: Option<usize> = Some(array_capacity::<T>($N));
             const IS_ALIGNED: bool = true;
 
-            fn capacity(&self) -> usize { $N }
+            fn capacity(&self) -> usize { array_capacity::<T>($N) }
 
             fn as_ptr(&self) -> *const T { self[..].as_ptr().cast() }
 
             fn as_mut_ptr(&mut self) -> *mut T { self[..].as_mut_ptr().cast() }
 
             fn reserve(&mut self, capacity: usize) {
-                if capacity > $N {
-                    crate::raw::capacity::fixed_capacity_reserve_error($N, capacity)
+                if capacity > array_capacity::<T>($N) {
+                    crate::raw::capacity::fixed_capacity_reserve_error(array_capacity::<T>($N), capacity)
                 }
             }
 
             fn try_reserve(&mut self, capacity: usize) -> bool {
-                capacity <= $N
+                capacity <= array_capacity::<T>($N)
             }
         }
     )*};
-- 
2.43.0


From 55a4797b1aa1af56c9d29cf6767ecc2c6b9d84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 17/17] fix: `reserve` and `try_reserve` fail if a vector of
 zero-sized types can't hold the items

---
 src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ddd4f2..2dac6aa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -784,8 +784,9 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
 
         if self.remaining_capacity() < additional {
             self.storage.reserve(match self.len().checked_add(additional) {
-                Some(new_capacity) => new_capacity,
-                None => allocation_failure(additional),
+                // the capacity for zero-sized types can't change
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => new_capacity,
+                _ => allocation_failure(additional),
             })
         }
     }
@@ -796,8 +797,9 @@ impl<T, S: ?Sized + Storage<T>> GenericVec<T, S> {
     pub fn try_reserve(&mut self, additional: usize) -> bool {
         if self.remaining_capacity() < additional {
             match self.len().checked_add(additional) {
-                Some(new_capacity) => self.storage.try_reserve(new_capacity),
-                None => false,
+                // the capacity for zero-sized types can't change
+                Some(new_capacity) if core::mem::size_of::<T>() != 0 => self.storage.try_reserve(new_capacity),
+                _ => false,
             }
         } else {
             true
-- 
2.43.0

