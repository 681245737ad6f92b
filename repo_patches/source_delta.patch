From 12bfb237c0310a239f7e36408b0e4f41006436d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:21 +0000
Subject: [PATCH 01/26] fix: free the last subarray when a deque is dropped

---
 src/deque/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..4a02030 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -445,7 +445,8 @@ impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
             for subarray in unsafe {
                 std::slice::from_raw_parts_mut(
                     current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
+                    // the end iterator's subarray is allocated as well, even when it is empty
+                    self.end_it.current_array.offset_from(current_array) as usize + 1,
                 )
             } {
                 self.free_subarray(*subarray);
-- 
2.43.0


From b58ac0d38d213bcd2f03d8c5eac377b6739bc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:21 +0000
Subject: [PATCH 02/26] fix: return list nodes to the allocator with the size
 they were allocated with

---
 src/list/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..b6db149 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -81,7 +80,7 @@ impl<T, A: Allocator> List<T, A> {
                 // Drop the value
                 ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
                 // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
+                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
             }
         }
         self.init_sentinel_node();
@@ -207,7 +206,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
-- 
2.43.0


From f594939e007b55e4c1e86a525f8dc61e9095657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:21 +0000
Subject: [PATCH 03/26] fix: free hash table bucket arrays on rehash and drop

---
 src/internal/hash_table/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..ae3d1ca 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -347,6 +347,18 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         }
     }
 
+    /// Frees the bucket array itself, unless it is the shared empty one.
+    /// The bucket array must be replaced (or never used again) afterwards
+    fn free_bucket_array(&mut self) {
+        if self.bucket_count > 1 {
+            // the sentinel is part of the allocation
+            unsafe {
+                self.allocator
+                    .deallocate(self.bucket_array, self.bucket_count as usize + 1)
+            }
+        }
+    }
+
     /// Inserts a key-value pair into the hash-table.
     ///
     /// # Arguments
@@ -411,8 +423,8 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
                 }
                 *bucket_node_ref = std::ptr::null_mut();
             });
-        // free the old buckets before setting new ones
-        self.free_buckets();
+        // free the old (now empty) bucket array before setting the new one
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -431,6 +443,7 @@ where
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
         self.free_buckets();
+        self.free_bucket_array();
     }
 }
 
-- 
2.43.0


From 8818a84a0fed5e50d56ed682fd3a58d6917fc46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:41 +0000
Subject: [PATCH 04/26] fix: clone into vectors without dropping uninitialized
 or leaking old elements

---
 src/vector/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..ed9513b 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -284,10 +284,12 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
             self.reserve(new_len - self.capacity());
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // clone into the uninitialized spare capacity
+        for elem in buf {
+            unsafe {
+                self.end_ptr.write(elem.clone());
+                self.increment_size();
+            }
         }
     }
 
@@ -297,14 +299,14 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The slice
     pub fn assign(&mut self, buf: &[T]) {
-        if buf.len() > self.capacity() {
-            self.reserve(buf.len() - self.capacity());
-        }
-
+        // drop the old elements, keeping the storage
         unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
+            let old_elems: *mut [T] = self.as_slice_mut();
+            self.end_ptr = self.begin_ptr;
+            ptr::drop_in_place(old_elems);
         }
+
+        self.append(buf);
     }
 }
 
-- 
2.43.0


From 9614e421816b6f487ddfae662bee2f59e711671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:53 +0000
Subject: [PATCH 05/26] fix: make String::assign replace the contents instead
 of appending

---
 src/string/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..f7f3f76 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -73,10 +73,13 @@ impl<A: Allocator> String<A> {
 
     /// Assigns a string to a slice
     pub fn assign<S: AsRef<str>>(&mut self, buf: S) {
-        self.reserve(buf.as_ref().len());
+        let buf = buf.as_ref().as_bytes();
+        if self.vec.begin_ptr.is_null() || buf.len() > self.capacity() {
+            self.reserve(buf.len().saturating_sub(self.capacity()));
+        }
 
         // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        self.vec.assign(buf);
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
-- 
2.43.0


From 5e8bb514a5866c2d21d48e61e296e0966b956792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:53 +0000
Subject: [PATCH 06/26] fix: keep strings null-terminated after remove, reserve
 and with_capacity

---
 src/string/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index f7f3f76..a15f395 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -36,10 +36,15 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+
+        // null terminate
+        unsafe { ret.null_terminate() }
+
+        ret
     }
 }
 
@@ -159,7 +164,12 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            let elem = self.vec.remove(index).map(|elem| elem as char);
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            elem
         }
     }
 
@@ -170,7 +180,10 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec.reserve(capacity + 1);
+
+        // the new block is only terminated at its capacity
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From fc60c92e2c8b1b522e3d01fb32f6159df85df32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:54 +0000
Subject: [PATCH 07/26] fix: insert and remove whole chars so strings stay
 valid UTF-8

---
 src/string/mod.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index a15f395..809ba18 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -131,7 +131,12 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
+        let elem = self.as_str().chars().next_back();
+
+        // remove every byte of the char
+        for _ in 0..elem.map_or(0, char::len_utf8) {
+            self.vec.pop();
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -140,7 +145,7 @@ impl<A: Allocator> String<A> {
     }
 
     /// Inserts a char into the string at an index.
-    /// `index` must be less than or equal to `size`
+    /// `index` must be less than or equal to `size`, and lie on a char boundary
     ///
     /// # Arguments
     ///
@@ -148,29 +153,38 @@ impl<A: Allocator> String<A> {
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(
+            self.as_str().is_char_boundary(index),
+            "index out of bounds or not on a char boundary"
+        );
+
+        // insert every byte of the char
+        let mut buf = [0; 4];
+        for (i, byte) in elem.encode_utf8(&mut buf).bytes().enumerate() {
+            self.vec.insert(index + i, byte);
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
     }
 
-    /// Remove the char at the index and return it
+    /// Remove the char at the index and return it, or `None` if no char starts there
     ///
     /// # Arguments
     ///
     /// `index`: The index of the element to remove
     pub fn remove(&mut self, index: usize) -> Option<char> {
-        // account for null terminator
-        if index >= self.len() {
-            None
-        } else {
-            let elem = self.vec.remove(index).map(|elem| elem as char);
-
-            // null terminate
-            unsafe { self.null_terminate() }
+        let elem = self.as_str().get(index..)?.chars().next()?;
 
-            elem
+        // remove every byte of the char
+        for _ in 0..elem.len_utf8() {
+            self.vec.remove(index);
         }
+
+        // null terminate
+        unsafe { self.null_terminate() }
+
+        Some(elem)
     }
 
     /// Reserves space for chars within the string
-- 
2.43.0


From 0f1901e6b169a6d66919e543c013ea9bc08b9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 08/26] fix: return true from HashSet::insert when the key was
 inserted

---
 src/hash_set/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..1c42b76 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -61,7 +61,8 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
         self.hash_table.get(key).map(|(k, _)| k)
     }
 
-    /// Inserts the key pair into the hashset. Returns true on success
+    /// Inserts the key pair into the hashset. Returns true on success,
+    /// and false if an equal key was already present
     ///
     /// # Arguments
     ///
@@ -69,7 +70,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
-- 
2.43.0


From 0d4c7068e536b9bf3a7ea17cd0564c44f8d6e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 09/26] fix: drop the pairs of freed tree nodes and leave a
 cleared tree empty

---
 src/internal/rb_tree/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..7e584b6 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -259,8 +259,11 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(right) = root.right() {
             self.free_tree(right)
         }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
+        // drop and deallocate the current node
+        unsafe {
+            std::ptr::drop_in_place(root as *mut Node<K, V>);
+            self.allocator.deallocate(root, 1)
+        }
     }
 
     /// Frees all of the nodes in the tree
@@ -268,6 +271,11 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         if let Some(node) = unsafe { self.parent.as_mut() } {
             self.free_tree(node)
         }
+        // the nodes are gone, so don't leave any pointers to them behind
+        self.begin = std::ptr::null_mut();
+        self.end = std::ptr::null_mut();
+        self.parent = std::ptr::null_mut();
+        self.size = 0;
     }
 
     /// Returns the parent node
-- 
2.43.0


From b92dc004b36cc5567c3b448b8733881da763bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 10/26] fix: keep the hash growth policy inside its prime table
 for huge tables

---
 src/internal/hash_table/rehash_policy.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/hash_table/rehash_policy.rs b/src/internal/hash_table/rehash_policy.rs
index 97404fa..ee0390f 100644
--- a/src/internal/hash_table/rehash_policy.rs
+++ b/src/internal/hash_table/rehash_policy.rs
@@ -74,7 +74,9 @@ impl PrimeRehashPolicy {
                 // we need to grow the hashtable
                 min_bucket_count = min_bucket_count.max(self.growth_factor * bucket_count as f32);
                 // the next largest prime will satisfy our load factor
-                let next_prime = PRIMES[PRIMES.lower_bound(&(min_bucket_count as u32))];
+                // (the last prime is repeated, so that the search always finds one)
+                let next_prime =
+                    PRIMES[PRIMES[..PRIMES.len() - 1].lower_bound(&(min_bucket_count as u32))];
                 self.next_resize = (next_prime as f32 * self.max_load_factor).ceil() as u32;
                 Some(next_prime)
             } else {
-- 
2.43.0


From 39aa1e2e4f7828cf6afc360802d72b0e321ef004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 11/26] fix: panic instead of under-allocating when a capacity
 overflows

---
 src/allocator.rs                        | 9 ++++-----
 src/string/mod.rs                       | 3 ++-
 src/string/null_terminator_allocator.rs | 4 +++-
 src/vector/mod.rs                       | 5 ++++-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 7544ff5..750bd38 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -13,11 +13,10 @@ pub unsafe trait Allocator {
     ///
     /// `n`: The number of array elements
     fn allocate<T>(&mut self, n: usize) -> *mut T {
-        unsafe {
-            std::mem::transmute(
-                self.allocate_raw_aligned(n * std::mem::size_of::<T>(), std::mem::align_of::<T>()),
-            )
-        }
+        let size = n
+            .checked_mul(std::mem::size_of::<T>())
+            .expect("capacity overflow");
+        unsafe { std::mem::transmute(self.allocate_raw_aligned(size, std::mem::align_of::<T>())) }
     }
 
     /// Allocate `n` bytes aligned to usize. `n` must not be zero.
diff --git a/src/string/mod.rs b/src/string/mod.rs
index 809ba18..d949acc 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -194,7 +194,8 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1);
+        self.vec
+            .reserve(capacity.checked_add(1).expect("capacity overflow"));
 
         // the new block is only terminated at its capacity
         unsafe { self.null_terminate() }
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 326ae80..0771cb1 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -5,7 +5,9 @@ pub(crate) struct NullTerminatorAllocator<A: Allocator>(pub(crate) A);
 unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         // always leave room for the null terminator
-        let res = self.0.allocate_raw_aligned(n + 1, align);
+        let res = self
+            .0
+            .allocate_raw_aligned(n.checked_add(1).expect("capacity overflow"), align);
         // null terminate
         *(unsafe { &mut *(res as *mut u8).add(n) }) = 0;
         res
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index ed9513b..e069f81 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -206,7 +206,10 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
         }
         // allocate a new bit of memory
         let size = self.len();
-        let new_capacity = self.capacity() + additional;
+        let new_capacity = self
+            .capacity()
+            .checked_add(additional)
+            .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
         // copy from the old array if we should
-- 
2.43.0


From 931bb3e28c16756e9b77a1da88d5db2007564007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:51 +0000
Subject: [PATCH 12/26] fix: report allocation failure instead of returning a
 null block

---
 src/allocator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 750bd38..b75abc8 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -101,11 +101,12 @@ unsafe impl Allocator for DefaultAllocator {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         assert_ne!(n, 0, "`n` must not be zero!");
 
-        unsafe {
-            std::mem::transmute(alloc::alloc(
-                Layout::array::<u8>(n).unwrap().align_to(align).unwrap(),
-            ))
+        let layout = Layout::array::<u8>(n).unwrap().align_to(align).unwrap();
+        let p = unsafe { alloc::alloc(layout) };
+        if p.is_null() {
+            alloc::handle_alloc_error(layout);
         }
+        p.cast()
     }
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
-- 
2.43.0


From 240596a97b3a4ba9555c5b5e71ffe253905475f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 13/26] fix: hash the bytes of a C string even when they are
 not UTF-8

---
 src/hash.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/hash.rs b/src/hash.rs
index 93259b3..561536e 100644
--- a/src/hash.rs
+++ b/src/hash.rs
@@ -97,18 +97,18 @@ impl Hash<bool> for DefaultHash<bool> {
 ///
 /// # Arguments
 ///
-/// `str`: The string to hash
-fn fnv1<S: AsRef<str>>(str: S) -> usize {
+/// `bytes`: The bytes of the string to hash
+fn fnv1(bytes: &[u8]) -> usize {
     let mut res: u32 = 2166136261;
-    str.as_ref()
-        .bytes()
-        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (c as u32));
+    bytes
+        .iter()
+        .for_each(|c| res = (res.wrapping_mul(16777619)) ^ (*c as u32));
     res as usize
 }
 
 impl Hash<str> for DefaultHash<str> {
     fn hash(val: &str) -> usize {
-        fnv1(val)
+        fnv1(val.as_bytes())
     }
 }
 
@@ -120,7 +120,7 @@ impl Hash<&str> for DefaultHash<&str> {
 
 impl Hash<*const c_char> for DefaultHash<*const c_char> {
     fn hash(val: &*const c_char) -> usize {
-        DefaultHash::<str>::hash(unsafe { CStr::from_ptr(*val) }.to_string_lossy().as_ref())
+        fnv1(unsafe { CStr::from_ptr(*val) }.to_bytes())
     }
 }
 
-- 
2.43.0


From ea40081af89ad8856a9c4e6e515d1a1711a1c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:17 +0000
Subject: [PATCH 14/26] fix: don't report a cleared fixed vector as overflowed

---
 src/fixed_vector/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..71017a9 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -98,7 +98,9 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT,
 
     /// Returns true if the allocations spilled over into the overflow allocator. Meaningful only if overflow is enabled.
     pub fn has_overflowed(&self) -> bool {
-        !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
+        // a cleared vector has no storage at all
+        !self.base_vec.begin_ptr.is_null()
+            && !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
     }
 }
 
-- 
2.43.0


From d8d6b50910a915f14aa566d59bd528cf0c2fc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:38 +0000
Subject: [PATCH 15/26] fix: move fixed vectors without reading uninitialized
 memory or keeping the old pool

---
 src/fixed_vector/mod.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 71017a9..28bddad 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -8,8 +8,7 @@ use std::fmt::Debug;
 use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
-use std::ptr::null_mut;
-use std::{mem, ptr};
+use std::ptr;
 
 mod allocator;
 
@@ -64,29 +63,22 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator + Default> FixedVector<T, N
 unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
     for FixedVector<T, NODE_COUNT, A>
 {
-    unsafe fn move_new(mut src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
-        let this = this.get_unchecked_mut().assume_init_mut();
-        let src = src.as_mut().get_unchecked_mut();
-        // Swap the allocator over
-        mem::swap(&mut this.base_vec.allocator, &mut src.base_vec.allocator);
-        if !src.has_overflowed() {
-            // We haven't overflowed, so we need to move the buffer
-            mem::swap(&mut this.buffer, &mut src.buffer);
-            // ... and re-init the base vec pointers point to it
+    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
+        let uses_buffer = ptr::eq(src.base_vec.begin_ptr, src.buffer[0].as_ptr());
+        // Move the whole vector over. This leaves nothing to be dropped in `src`
+        let this = this
+            .get_unchecked_mut()
+            .write(MoveRef::into_inner(Pin::into_inner_unchecked(src)));
+        if uses_buffer {
+            // We haven't overflowed, so the base vec pointers still point to the old buffer
+            let len = this.base_vec.len();
             this.init_base_vec();
             // we have to fix the end pointer since it will be set to begin_ptr by init_base_vec
-            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize
-                + (src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize))
-                as *mut T;
+            this.base_vec.end_ptr = this.base_vec.begin_ptr.add(len);
         } else {
-            // We have overflowed - we are not going to use `buffer` anymore so we might as well
-            // leave it uninit - so we only copy over the base vec pointers
-            this.base_vec.begin_ptr = src.base_vec.begin_ptr;
-            this.base_vec.end_ptr = src.base_vec.end_ptr;
-            this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            // We have overflowed (or have no storage), but our pool is still our own buffer
+            this.base_vec.allocator.pool_begin = this.buffer[0].as_mut_ptr() as *mut c_void;
         }
-        // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
-        src.base_vec.begin_ptr = null_mut();
     }
 }
 
-- 
2.43.0


From 9b5d16d3bfe0c0cf6d2a1e6e6da0cd9087cbb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:38 +0000
Subject: [PATCH 16/26] fix: return a block that starts right behind a pool to
 the overflow allocator

---
 src/fixed_pool/with_overflow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_pool/with_overflow.rs b/src/fixed_pool/with_overflow.rs
index d5cb777..6f32ba2 100644
--- a/src/fixed_pool/with_overflow.rs
+++ b/src/fixed_pool/with_overflow.rs
@@ -85,7 +85,7 @@ unsafe impl<Node: Sized, OverflowAllocator: Allocator> Allocator
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), _n: usize, _align: usize) {
         // if it's contained within the pool allocator, use the pool allocator
-        if self.pool_begin <= p && p <= self.pool_allocator.capacity.cast() {
+        if self.pool_begin <= p && p < self.pool_allocator.capacity.cast() {
             self.pool_allocator.deallocate_raw_aligned(p, _n, _align)
         } else {
             self.overflow_allocator
-- 
2.43.0


From dfadc23986814efe6ddbdd11ea927b9589cd8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:17 +0000
Subject: [PATCH 17/26] fix: make hash table compatibility iterators
 traversable by C++

---
 src/internal/hash_table/iter.rs | 88 +++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index 5b49303..ead1b84 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -42,21 +42,22 @@ struct RawIter<'a, K: PartialEq + 'a, V: 'a> {
 }
 
 impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
+    /// The sentinel behind the last bucket, which is the node of the C++ end iterator
+    const END_NODE: *mut Node<K, V> = !0usize as *mut Node<K, V>;
+
     /// Converts the Rust iterator into a pair of
     /// `(begin, end)` compatibility iterators
     fn into_compat(self) -> (CompatIter<'a, K, V>, CompatIter<'a, K, V>) {
+        let (node_ptr, bucket_ptr, end_bucket_ptr) = self.into_raw_compat();
         (
             CompatIter::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>,
+                node_ptr,
+                bucket_ptr: bucket_ptr as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
             CompatIter::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: unsafe {
-                    (self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>)
-                        .add(self.bucket_iter.as_slice().len())
-                },
+                node_ptr: Self::END_NODE,
+                bucket_ptr: end_bucket_ptr as *const *const Node<K, V>,
                 _marker: PhantomData,
             },
         )
@@ -70,24 +71,43 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Mutability of the exposed iterator must be enforced.
     /// POLLO: Is there a better way to do this?
     unsafe fn into_compat_mut(self) -> (CompatIterMut<'a, K, V>, CompatIterMut<'a, K, V>) {
+        let (node_ptr, bucket_ptr, end_bucket_ptr) = self.into_raw_compat();
         (
             CompatIterMut::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr(),
+                node_ptr,
+                bucket_ptr,
                 _marker: PhantomData,
             },
             CompatIterMut::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: self
-                    .bucket_iter
-                    .as_slice()
-                    .as_ptr()
-                    .add(self.bucket_iter.as_slice().len()),
+                node_ptr: Self::END_NODE,
+                bucket_ptr: end_bucket_ptr,
                 _marker: PhantomData,
             },
         )
     }
 
+    /// Returns the node and bucket of the C++ iterator, and the bucket
+    /// of the C++ end iterator. A C++ iterator points to the bucket its
+    /// node is in, while `bucket_iter` is already past that bucket
+    fn into_raw_compat(
+        self,
+    ) -> (
+        *mut Node<K, V>,
+        *const *mut Node<K, V>,
+        *const *mut Node<K, V>,
+    ) {
+        let remaining_buckets = self.bucket_iter.as_slice().as_ptr_range();
+        if self.node_ptr.is_null() {
+            (Self::END_NODE, remaining_buckets.end, remaining_buckets.end)
+        } else {
+            (
+                self.node_ptr,
+                unsafe { remaining_buckets.start.sub(1) },
+                remaining_buckets.end,
+            )
+        }
+    }
+
     /// Constructs a Rust iterator from a pair of
     /// compatibility iterators
     ///
@@ -102,14 +122,11 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat(begin: CompatIter<K, V>, end: CompatIter<K, V>) -> Self {
-        Self {
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr as *const *mut Node<K, V>,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
-            node_ptr: begin.node_ptr,
-        }
+        Self::from_raw_compat(
+            begin.node_ptr,
+            begin.bucket_ptr as *const *mut Node<K, V>,
+            end.bucket_ptr as *const *mut Node<K, V>,
+        )
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -126,13 +143,32 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat_mut(begin: CompatIterMut<K, V>, end: CompatIterMut<K, V>) -> Self {
+        Self::from_raw_compat(begin.node_ptr, begin.bucket_ptr, end.bucket_ptr)
+    }
+
+    /// Constructs a Rust iterator from the node and bucket of a C++ iterator,
+    /// and the bucket of the C++ end iterator
+    unsafe fn from_raw_compat(
+        node_ptr: *mut Node<K, V>,
+        bucket_ptr: *const *mut Node<K, V>,
+        end_bucket_ptr: *const *mut Node<K, V>,
+    ) -> Self {
+        if bucket_ptr == end_bucket_ptr {
+            // there is no node left
+            return Self {
+                bucket_iter: std::slice::from_raw_parts(end_bucket_ptr, 0).iter(),
+                node_ptr: std::ptr::null_mut(),
+            };
+        }
+        // the current bucket is traversed through the node
+        let remaining_buckets = bucket_ptr.add(1);
         Self {
-            node_ptr: begin.node_ptr,
             bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
+                remaining_buckets,
+                end_bucket_ptr.offset_from(remaining_buckets) as usize,
             )
             .iter(),
+            node_ptr,
         }
     }
 
-- 
2.43.0


From cfaf17ead23bce9d952cbcee10c85a8cd5160534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:08 +0000
Subject: [PATCH 18/26] Open the pool and hash internals to verification
 harnesses under cfg(eastl_verif)

---
 src/internal/hash_table/mod.rs | 3 +++
 src/lib.rs                     | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index ae3d1ca..6087fa9 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -18,7 +18,10 @@ use self::{
 pub(crate) mod entry;
 pub mod iter;
 pub mod node;
+#[cfg(not(eastl_verif))]
 mod rehash_policy;
+#[cfg(eastl_verif)]
+pub mod rehash_policy;
 
 /// Hash table with the default allocator.
 #[cfg(test)]
diff --git a/src/lib.rs b/src/lib.rs
index 4aaeb16..98575f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,6 +1,8 @@
 // for `FixedList`
 #![cfg_attr(feature = "nightly", allow(incomplete_features))]
 #![cfg_attr(feature = "nightly", feature(generic_const_exprs))]
+// `--cfg eastl_verif` opens some internals to external verification harnesses
+#![allow(unexpected_cfgs)]
 
 pub mod allocator;
 pub mod compare;
@@ -8,12 +10,18 @@ pub mod deque;
 pub mod equals;
 pub mod fixed_list;
 pub mod fixed_map;
+#[cfg(not(eastl_verif))]
 mod fixed_pool;
+#[cfg(eastl_verif)]
+pub mod fixed_pool;
 pub mod fixed_vector;
 pub mod hash;
 pub mod hash_map;
 pub mod hash_set;
+#[cfg(not(eastl_verif))]
 mod internal;
+#[cfg(eastl_verif)]
+pub mod internal;
 pub mod list;
 pub mod map;
 pub mod queue;
-- 
2.43.0


From 6f831c9043457644790dbfd094594040cd19a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 19/26] Open the tree node to verification harnesses under
 cfg(eastl_verif)

---
 src/internal/rb_tree/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index 7e584b6..0f3c823 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -9,7 +9,10 @@ use std::marker::PhantomData;
 use self::node::Node;
 
 pub mod iter;
+#[cfg(not(eastl_verif))]
 pub(crate) mod node;
+#[cfg(eastl_verif)]
+pub mod node;
 
 #[repr(C)]
 pub struct RBTree<K: PartialEq, V, A: Allocator, C: Compare<K> = Less<K>> {
-- 
2.43.0


From fa96b843608b3b10531dbd1e26a59a19ea56eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 20/26] fix: don't create a reference past the end of a
 consumed vector

---
 src/vector/into_iter.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vector/into_iter.rs b/src/vector/into_iter.rs
index 7405bfa..8782309 100644
--- a/src/vector/into_iter.rs
+++ b/src/vector/into_iter.rs
@@ -16,19 +16,21 @@ pub struct IntoIter<T: Sized, A: Allocator> {
 impl<T: Sized, A: Allocator> IntoIter<T, A> {
     /// Returns the vector as raw bytes
     pub fn as_slice(&self) -> &[T] {
-        if let Some(front_cursor) = unsafe { self.front_cursor.as_ref() } {
-            unsafe { std::slice::from_raw_parts(front_cursor, self.len()) }
-        } else {
+        // the cursor may be one past the end, so don't create a reference from it
+        if self.front_cursor.is_null() {
             &[]
+        } else {
+            unsafe { std::slice::from_raw_parts(self.front_cursor, self.len()) }
         }
     }
 
     /// Returns the vector as raw bytes
     pub fn as_slice_mut(&mut self) -> &mut [T] {
-        if let Some(front_cursor) = unsafe { self.front_cursor.as_mut() } {
-            unsafe { std::slice::from_raw_parts_mut(front_cursor, self.len()) }
-        } else {
+        // the cursor may be one past the end, so don't create a reference from it
+        if self.front_cursor.is_null() {
             &mut []
+        } else {
+            unsafe { std::slice::from_raw_parts_mut(self.front_cursor, self.len()) }
         }
     }
 
-- 
2.43.0


From dcab143487ad5310ac4e5c865957ac0acddbf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 21/26] fix: return a cleared fixed vector to its inline
 storage

---
 src/fixed_vector/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 28bddad..2825cdf 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -88,6 +88,13 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT,
         NODE_COUNT
     }
 
+    /// Clears all of the contents, and returns to the fixed storage
+    pub fn clear(&mut self) {
+        // frees the overflowed storage, but not the pool
+        self.base_vec.clear();
+        self.init_base_vec();
+    }
+
     /// Returns true if the allocations spilled over into the overflow allocator. Meaningful only if overflow is enabled.
     pub fn has_overflowed(&self) -> bool {
         // a cleared vector has no storage at all
-- 
2.43.0


From 8f3c5c80d21ed14e518d9b12cfd3a52bbaef918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 22/26] fix: don't drop the elements of a vector again if one
 panics while clearing

---
 src/vector/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index e069f81..1b7c513 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -89,8 +89,11 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
     pub fn clear(&mut self) {
         if !self.begin_ptr.is_null() {
             unsafe {
-                // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
+                // drop all elements in place. forget them first, so that
+                // none is dropped again should one of them panic
+                let elems: *mut [T] = self.as_slice_mut();
+                self.end_ptr = self.begin_ptr;
+                std::ptr::drop_in_place(elems);
                 // free the array
                 self.allocator
                     .deallocate::<T>(self.begin_ptr, self.capacity())
-- 
2.43.0


From 601fa2faf5c1bed2d8991b78f2df3b69d7155d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 23/26] fix: leave no dropped values in a list if one panics
 while clearing

---
 src/list/mod.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index b6db149..f7cd50d 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -71,20 +71,9 @@ impl<T, A: Allocator> List<T, A> {
 
     /// Remove all elements from this list
     pub fn clear(&mut self) {
-        let mut next = self.node.next;
-        unsafe {
-            while next != &mut self.node {
-                let to_drop = next;
-                // Advance the next pointer before we delete the current node
-                next = (*next).next;
-                // Drop the value
-                ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
-                // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop as *mut ListNode<T>, 1);
-            }
-        }
-        self.init_sentinel_node();
-        self.size = 0;
+        // Unlink each node before its value is dropped, so that the list stays
+        // intact should one of the values panic
+        while self.pop_front().is_some() {}
     }
 
     /// If the list is empty or not
-- 
2.43.0


From aac7d1be8f38c5f582e931b5886bdefde09d9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 24/26] fix: leave no dropped pairs in a hash table if one
 panics while clearing

---
 src/internal/hash_table/mod.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index 6087fa9..95d51b0 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -317,36 +317,30 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         None
     }
 
-    /// Frees a bucket and all of the child nodes
+    /// Frees all of the nodes in a bucket, leaving it empty
     ///
     /// # Arguments
     ///
-    /// `bucket_node`: The node in the bucket
-    fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
+    /// `bucket`: The bucket
+    fn free_bucket(&mut self, bucket: *mut *mut Node<K, V>) {
         unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+            while let Some(node) = (*bucket).as_mut() {
+                // unlink the node before dropping its pair, so that the
+                // table stays intact should one of them panic
+                *bucket = node.next;
+                self.element_count -= 1;
+                std::ptr::drop_in_place(node as *mut Node<K, V>);
+                self.allocator.deallocate(node, 1)
+            }
         }
     }
 
     /// Frees all buckets
     fn free_buckets(&mut self) {
         if self.bucket_count > 1 {
-            // we can't use `buckets_mut` here because it would cause us to
-            // hold a mutable reference to self and later immutable. any ideas?
-            let buckets = unsafe {
-                std::slice::from_raw_parts_mut(self.bucket_array, self.bucket_count as usize)
-            };
-            for bucket in buckets.iter().filter_map(|elem| unsafe { elem.as_mut() }) {
-                self.free_bucket(bucket)
+            for index in 0..self.bucket_count as usize {
+                self.free_bucket(unsafe { self.bucket_array.add(index) })
             }
-            // zero the pointers
-            buckets.fill_with(std::ptr::null_mut)
         }
     }
 
-- 
2.43.0


From 547e98fa216f3bd3636a16359d549b7537c1188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 25/26] fix: leave no dropped pairs in a tree if one panics
 while clearing

---
 src/internal/rb_tree/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index 0f3c823..90fee6a 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -271,14 +271,16 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
 
     /// Frees all of the nodes in the tree
     fn free_nodes(&mut self) {
-        if let Some(node) = unsafe { self.parent.as_mut() } {
-            self.free_tree(node)
-        }
-        // the nodes are gone, so don't leave any pointers to them behind
+        let root = self.parent;
+        // don't leave any pointers to the nodes behind, even
+        // if one of them panics while it is dropped
         self.begin = std::ptr::null_mut();
         self.end = std::ptr::null_mut();
         self.parent = std::ptr::null_mut();
         self.size = 0;
+        if let Some(node) = unsafe { root.as_mut() } {
+            self.free_tree(node)
+        }
     }
 
     /// Returns the parent node
-- 
2.43.0


From 856e8d71110e4e4cb7e412638e6766eb7bbe6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 26/26] fix: don't access the anchor of a tree as a node of the
 tree

---
 src/internal/rb_tree/iter.rs |  2 +-
 src/internal/rb_tree/node.rs | 47 ++++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/internal/rb_tree/iter.rs b/src/internal/rb_tree/iter.rs
index ec169c1..b57046f 100644
--- a/src/internal/rb_tree/iter.rs
+++ b/src/internal/rb_tree/iter.rs
@@ -41,7 +41,7 @@ impl<'a, K: 'a, V: 'a> Iterator for IterMut<'a, K, V> {
 
         unsafe { self.node.as_mut() }.map(|node| {
             // update the iterator
-            self.node = node.next_mut();
+            self.node = node.next();
             (&node.pair.0, &mut node.pair.1)
         })
     }
diff --git a/src/internal/rb_tree/node.rs b/src/internal/rb_tree/node.rs
index 0f36fe1..a5738d4 100644
--- a/src/internal/rb_tree/node.rs
+++ b/src/internal/rb_tree/node.rs
@@ -1,4 +1,3 @@
-use duplicate::duplicate_item;
 use std::{fmt::Debug, marker::PhantomData, ptr};
 
 /// The color of a red-black tree node
@@ -91,6 +90,14 @@ pub struct Node<K, V> {
     pub(crate) pair: (K, V),
 }
 
+/// The links at the beginning of a node, which is all there is to the anchor of a tree
+#[repr(C)]
+struct Links<K, V> {
+    right: *mut Node<K, V>,
+    _left: *mut Node<K, V>,
+    parent: ParentColor<K, V>,
+}
+
 impl<K: Default, V: Default> Default for Node<K, V> {
     fn default() -> Self {
         Self {
@@ -192,16 +199,9 @@ impl<K, V> Node<K, V> {
         old_right
     }
 
-    /// Returns the next node in the tree, in increasing order.
-    ///
-    /// # Safety
-    /// This method returns
-    #[duplicate_item(
-        next        Self        Node;
-        [next]      [Self]      [Node];
-        [next_mut]  [mut Self]  [mut Node]
-    )]
-    pub fn next(mut self: &Self) -> &Node<K, V> {
+    /// Returns the next node in the tree, in increasing order, or the anchor of the tree if this is
+    /// the last node.
+    pub fn next(&self) -> *mut Node<K, V> {
         if let Some(mut right_node) = unsafe { self.right.as_mut() } {
             // the successor lies in the right subtree. find the smallest value in the greater
             // subtree, which is the left-most node.
@@ -215,23 +215,34 @@ impl<K, V> Node<K, V> {
             // parent's left node (meaning the parent is the first node greater than the node)
             // safety: the parent of a node is always present, because the parent of the root node
             // is inside the tree itself
-            let mut parent = unsafe { &mut *self.parent.ptr() };
-            while ptr::eq(self as *const _, parent.right as *const _) {
-                let parent_parent = unsafe { &mut *parent.parent.ptr() };
-                self = parent;
+            let mut node = self as *const Self as *mut Self;
+            let mut parent = self.parent.ptr();
+            while ptr::eq(node, unsafe { (*Self::links(parent)).right }) {
+                let parent_parent = unsafe { (*Self::links(parent)).parent.ptr() };
+                node = parent;
                 parent = parent_parent;
             }
 
             // I have deliberated on this and truly have no clue why we are doing this, but it works
             // and is how it is originally implemented
-            if !ptr::eq(self.right, parent) {
-                self = parent;
+            if !ptr::eq(unsafe { (*Self::links(node)).right }, parent) {
+                node = parent;
             }
 
-            self
+            node
         }
     }
 
+    /// The links of a node or of the anchor of a tree, which must not be accessed as a node: there
+    /// is no pair in it, and it doesn't have the alignment of one.
+    ///
+    /// # Arguments
+    ///
+    /// `node`: The node or anchor
+    fn links(node: *const Self) -> *const Links<K, V> {
+        node.cast()
+    }
+
     /// The key stored in the node
     pub fn key(&self) -> &K {
         &self.pair.0
-- 
2.43.0

