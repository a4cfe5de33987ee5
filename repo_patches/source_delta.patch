From b2df3c050f792f2f03e0a6745277be3142d37141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 01/53] fix: trie lookups only descend into fully matched nodes

---
 crates/musli-zerocopy/src/trie/mod.rs  | 4 ++--
 crates/musli-zerocopy/src/trie/walk.rs | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/mod.rs b/crates/musli-zerocopy/src/trie/mod.rs
index 16f4953..5c282ad 100644
--- a/crates/musli-zerocopy/src/trie/mod.rs
+++ b/crates/musli-zerocopy/src/trie/mod.rs
@@ -252,10 +252,10 @@ where
                     let child = this.children.get_unchecked(n - 1);
                     let child = buf.load(child)?;
 
-                    // Find common prefix and split nodes if necessary.
                     let prefix = prefix(buf.load(child.string)?, string);
 
-                    if prefix == 0 {
+                    // Only descend if the whole string of the child matches.
+                    if prefix == 0 || prefix != child.string.len() {
                         return Ok(None);
                     }
 
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 2169bba..916a0f2 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -82,7 +82,6 @@ where
                                 for n in iter {
                                     let child = self.buf.load(this.children.get_unchecked(n))?;
 
-                                    // Find common prefix and split nodes if necessary.
                                     let prefix = prefix(self.buf.load(child.string)?, string);
 
                                     if prefix == 0 {
@@ -90,6 +89,12 @@ where
                                     }
 
                                     if prefix != string.len() {
+                                        // Only descend if the whole string of
+                                        // the child matches.
+                                        if prefix != child.string.len() {
+                                            continue;
+                                        }
+
                                         len += prefix;
                                         string = &string[prefix..];
                                         this = child.links;
-- 
2.43.0


From 5c512a2f2ab81b7cfa9ac99674771299b5c4c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 02/53] fix: trie insertion splits the right-hand neighbor on a
 common prefix

---
 crates/musli-zerocopy/src/trie/factory.rs | 46 ++++++++++++++---------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/factory.rs b/crates/musli-zerocopy/src/trie/factory.rs
index d27a265..c7b66d9 100644
--- a/crates/musli-zerocopy/src/trie/factory.rs
+++ b/crates/musli-zerocopy/src/trie/factory.rs
@@ -165,24 +165,28 @@ where
                     this.children[n].links.values.push(value);
                     return Ok(());
                 }
-                BinarySearch::Missing(0) => {
-                    this.children.insert(
-                        0,
-                        Node {
-                            string: Ref::try_with_metadata(string.offset(), string.len())?,
-                            links: Links::new(value),
-                        },
-                    );
-                    return Ok(());
-                }
                 BinarySearch::Missing(n) => {
-                    let pre = n - 1;
-
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(this.children[pre].string)?, current);
+                    // Find the neighbor sharing a common prefix with the
+                    // current string, since siblings never share one there is
+                    // at most one of them.
+                    let mut found = None;
+
+                    for index in n.checked_sub(1).into_iter().chain([n]) {
+                        let Some(child) = this.children.get(index) else {
+                            continue;
+                        };
+
+                        let prefix = prefix(buf.load(child.string)?, current);
+
+                        if prefix != 0 {
+                            found = Some((index, prefix));
+                            break;
+                        }
+                    }
 
-                    // No common prefix in prior node, so a new node is needed.
-                    if prefix == 0 {
+                    // No common prefix in either neighbor, so a new node is
+                    // needed.
+                    let Some((index, prefix)) = found else {
                         this.children.insert(
                             n,
                             Node {
@@ -191,9 +195,9 @@ where
                             },
                         );
                         return Ok(());
-                    }
+                    };
 
-                    let child = &mut this.children[pre];
+                    let child = &mut this.children[index];
 
                     // This happens if `current` contains a shorter subset match
                     // than the string represented by `child`, like `work` and
@@ -215,6 +219,12 @@ where
                     }
 
                     current = &current[prefix..];
+
+                    if current.is_empty() {
+                        child.links.values.push(value);
+                        return Ok(());
+                    }
+
                     string = string.split_at(prefix).1;
                     this = &mut child.links;
                 }
-- 
2.43.0


From a6f1451bd5dfa9bb87e07cff41b7ebadcecfc818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 03/53] fix: perfect hash displacements are stored for the
 bucket they were found for

---
 crates/musli-zerocopy/src/phf/generator.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 26eee0c..3935742 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -1,3 +1,4 @@
+use core::cmp::Reverse;
 use core::hash::Hash;
 
 use alloc::vec;
@@ -84,14 +85,18 @@ where
         hashes.push(h);
     }
 
-    let mut buckets = vec![Vec::<usize>::new(); displacements.len()];
+    let mut buckets = (0..displacements.len())
+        .map(|index| (index, Vec::<usize>::new()))
+        .collect::<Vec<_>>();
 
     for (index, hash) in hashes.iter().enumerate() {
         let to = hash.g % buckets.len();
-        buckets[to].push(index);
+        buckets[to].1.push(index);
     }
 
-    buckets.sort_by_key(|a| a.len());
+    // Place the largest buckets first, each remembers the index of the
+    // displacement it is associated with.
+    buckets.sort_by_key(|(_, bucket)| Reverse(bucket.len()));
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
@@ -111,7 +116,7 @@ where
     // chosen the right displacements.
     let mut values_to_add = vec![];
 
-    'outer: for (bucket, d_ref) in buckets.iter().zip(displacements.iter()) {
+    'outer: for (d_index, bucket) in &buckets {
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
@@ -131,7 +136,7 @@ where
                 }
 
                 // We've picked a good set of displacements
-                *buf.load_mut(d_ref)? = Entry::new(d1, d2);
+                *buf.load_mut(displacements.at(*d_index))? = Entry::new(d1, d2);
 
                 for &(i, key) in &values_to_add {
                     let m = buf.load_mut(map.at(i))?;
-- 
2.43.0


From bf6c4d7d2556141bf4116b3b9215b08b6cf619fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 04/53] fix: perfect hash entries are permuted into the slots
 they were assigned

---
 crates/musli-zerocopy/src/phf/factory.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index b8c4977..5326a5e 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -177,18 +177,17 @@ where
         )?
     };
 
-    for (from, a) in map.iter().enumerate() {
-        loop {
-            let to = *buf.as_mut_buf().load(a)?;
+    // The map associates each slot with the index of the entry which should end
+    // up in it. Entries below the current slot have already been moved, so we
+    // follow where they went.
+    for slot in 0..map.len() {
+        let mut from = *buf.as_buf().load(map.at(slot))?;
 
-            if from != to {
-                buf.swap(entries.at(from), entries.at(to))?;
-                buf.swap(map.at(from), map.at(to))?;
-                continue;
-            }
-
-            break;
+        while from < slot {
+            from = *buf.as_buf().load(map.at(from))?;
         }
+
+        buf.swap(entries.at(slot), entries.at(from))?;
     }
 
     // Free up temporary memory we needed to build the map.
-- 
2.43.0


From af4dd9608d92993d8a3e48a4332c2d2d4e2e5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 05/53] fix: usize offsets are read in the byte order they are
 stored in

---
 crates/musli-zerocopy/src/pointer/size.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..59f2728 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -152,4 +152,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, ZeroCopy::swap_bytes::<E>);
-- 
2.43.0


From 7f3168ddaf4f8c25469370359b29b33bd8f4845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 06/53] fix: array_into_slice preserves the offset of
 references in foreign byte order

---
 crates/musli-zerocopy/src/pointer/ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..e92b331 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -806,7 +806,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From 086e0bc1688055d416705a4392cdc6a233c7cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 07/53] fix: coercing references in foreign byte order scales
 their length

---
 crates/musli-zerocopy/src/pointer/ref.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index e92b331..646f66b 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -693,7 +693,7 @@ where
     {
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: T::coerce_metadata::<O>(self.metadata.swap_bytes::<E>()).swap_bytes::<E>(),
             _marker: PhantomData,
         }
     }
@@ -765,7 +765,8 @@ where
     {
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: T::try_coerce_metadata::<O>(self.metadata.swap_bytes::<E>())?
+                .swap_bytes::<E>(),
             _marker: PhantomData,
         })
     }
-- 
2.43.0


From 362b04cd3e8dceb4d2a37eaffc34fdfe2bdc22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 08/53] fix: loads and swaps at offsets close to usize::MAX are
 refused

---
 crates/musli-zerocopy/src/buf/buf.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..26409c8 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = checked_end(offset, size_of::<T>())?;
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,7 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+        let end = checked_end(start, size_of::<T>())?;
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +875,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = checked_end(offset, size_of::<T>())?;
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -900,7 +900,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = checked_end(start, size_of::<T>())?;
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -995,6 +995,16 @@ impl Buf {
     }
 }
 
+/// Calculate the end of a range, ensuring that it doesn't overflow.
+#[inline]
+fn checked_end(at: usize, len: usize) -> Result<usize, Error> {
+    let Some(end) = at.checked_add(len) else {
+        return Err(Error::new(ErrorKind::Overflow { at, len }));
+    };
+
+    Ok(end)
+}
+
 impl fmt::Debug for Buf {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_tuple("Buf").field(&self.data.len()).finish()
-- 
2.43.0


From 62aad750334f7b1d86d94b19d0d550db5b21f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 09/53] fix: length of swiss maps with more than eight buckets

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 5a204c0..03ef9f4 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -84,7 +84,7 @@ where
 
     /// Get the length of the table.
     pub(crate) fn len(&self) -> usize {
-        self.bucket_mask - self.growth_left
+        bucket_mask_to_capacity(self.bucket_mask) - self.growth_left
     }
 
     /// Returns the number of buckets in the table.
-- 
2.43.0


From 4a2b248bb46bd10ab5ca211faacaf4adb211bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 10/53] fix: validation of unaligned loads follows the layout
 of the type

---
 crates/musli-zerocopy/src/buf/validator.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 13f82e1..5cd5220 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -3,6 +3,7 @@ use core::mem::{align_of, size_of, transmute};
 use core::ops::Range;
 use core::ptr::{self, NonNull};
 
+use crate::buf::padding_to;
 use crate::error::Error;
 use crate::traits::ZeroCopy;
 
@@ -11,9 +12,12 @@ use crate::traits::ZeroCopy;
 /// [`Buf`]: crate::buf::Buf
 /// [`Buf::validate_struct`]: crate::buf::Buf::validate_struct
 #[must_use = "Must call `Validator::end` when validation is completed"]
-#[repr(transparent)]
+#[repr(C)]
 pub struct Validator<'a, T: ?Sized> {
     data: NonNull<u8>,
+    /// Offset of `data` in the value being validated. Padding is a property of
+    /// the layout of `T`, not of the address it happens to be stored at.
+    offset: usize,
     _marker: PhantomData<&'a T>,
 }
 
@@ -36,6 +40,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     pub(crate) unsafe fn new(data: NonNull<u8>) -> Self {
         Self {
             data,
+            offset: 0,
             _marker: PhantomData,
         }
     }
@@ -114,7 +119,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     #[inline]
     pub unsafe fn byte(&mut self) -> u8 {
         let b = ptr::read(self.data.as_ptr());
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(1));
+        self.advance_by(1);
         b
     }
 
@@ -262,14 +267,19 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     /// Align the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn align_with(&mut self, align: usize) {
-        let offset = self.data.as_ptr().align_offset(align);
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(offset));
+        self.advance_by(padding_to(self.offset, align));
     }
 
     /// Advance the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn advance<F>(&mut self) {
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(size_of::<F>()));
+        self.advance_by(size_of::<F>());
+    }
+
+    #[inline]
+    unsafe fn advance_by(&mut self, n: usize) {
+        self.data = NonNull::new_unchecked(self.data.as_ptr().add(n));
+        self.offset += n;
     }
 
     /// Return the address range associated with a just read `F` for diagnostics.
-- 
2.43.0


From 503cb8ddf7f546bcc546b1a744bc0e8b6d0f9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 11/53] fix: padding of fields in packed(N) structs with
 smaller alignment

---
 crates/musli-zerocopy/src/buf/padder.rs    | 3 ++-
 crates/musli-zerocopy/src/buf/validator.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 06d78f9..a368882 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,7 +80,8 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        let count = buf::padding_to(self.offset, align);
+        // A packed field keeps its own alignment if that is smaller.
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
         // zero out padding.
         self.data.as_ptr().add(self.offset).write_bytes(0, count);
         self.offset += count;
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 5cd5220..948a6af 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -238,7 +238,8 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     where
         F: ZeroCopy,
     {
-        self.align_with(align);
+        // A packed field keeps its own alignment if that is smaller.
+        self.align_with(align.min(align_of::<F>()));
         F::validate(&mut Validator::new(self.data))?;
         self.advance::<F>();
         Ok(())
-- 
2.43.0


From 9778ffa38c0f37794316e462053b8a08124cb7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 12/53] fix: iterating references to zero-sized elements yields
 every element

---
 crates/musli-zerocopy/src/pointer/ref.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 646f66b..315a780 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -453,11 +453,13 @@ where
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
         let start = self.offset.as_usize::<E>();
-        let end = start + self.metadata.as_usize::<E>() * size_of::<T>();
+        let len = self.metadata.as_usize::<E>();
+        let end = start + len * size_of::<T>();
 
         Iter {
             start,
             end,
+            len,
             _marker: PhantomData,
         }
     }
@@ -508,6 +510,8 @@ where
 pub struct Iter<T, E, O> {
     start: usize,
     end: usize,
+    // Elements remaining, since positions do not tell zero-sized ones apart.
+    len: usize,
     _marker: PhantomData<(T, E, O)>,
 }
 
@@ -521,9 +525,7 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.start == self.end {
-            return None;
-        }
+        self.len = self.len.checked_sub(1)?;
 
         let start = self.start;
         self.start += size_of::<T>();
@@ -539,9 +541,7 @@ where
 {
     #[inline]
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.start == self.end {
-            return None;
-        }
+        self.len = self.len.checked_sub(1)?;
 
         self.end -= size_of::<T>();
         Some(Ref::new(self.end))
-- 
2.43.0


From 60396c2ae5620bc06a7f06222e77cc64e05ec3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 13/53] fix: only copy values bitwise under the native byte
 order

---
 crates/musli/src/options.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..4415529 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -328,8 +328,18 @@ const fn is_map_keys_as_numbers_value(opt: Options) -> bool {
 ))]
 pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
-        (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
-        (Integer::Fixed, Float::Fixed, Width::NATIVE)
+        (
+            integer::<OPT>(),
+            float::<OPT>(),
+            length::<OPT>(),
+            byteorder::<OPT>()
+        ),
+        (
+            Integer::Fixed,
+            Float::Fixed,
+            Width::NATIVE,
+            ByteOrder::NATIVE
+        )
     )
 }
 
-- 
2.43.0


From 3c30a959c74b021c27b4c672825cea324d6cda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 14/53] fix: prefix fixed-width lengths in the wire format with
 their size

---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From 9fb4d717b97e3fe8d7ab18022976d1a679fd2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 15/53] fix: reject variable-length integers which do not fit
 their type

---
 crates/musli/src/int/continuation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..914523e 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,16 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+
+        let bits = T::from_byte(b & MASK_BYTE);
+        let shifted = bits.wrapping_shl(shift);
+
+        // Any bits shifted out mean that the value doesn't fit.
+        if shifted >> shift != bits {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(shifted);
     }
 
     Ok(value)
-- 
2.43.0


From 8ea08f6ee574fb77424fed56882c5364610481c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 16/53] fix: skip every remaining element of a descriptive
 sequence

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..4a5e039 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -198,7 +198,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From 48338c16333dc2af99b8ebb580b2123d43d64f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 17/53] fix: report an error when the number of values to skip
 overflows

---
 crates/musli/src/descriptive/de.rs | 21 ++++++++++++++++-----
 crates/musli/src/wire/de.rs        |  8 ++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 4a5e039..fd69267 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
@@ -74,10 +74,10 @@ where
                 }
                 Kind::Mark => match tag.mark() {
                     Mark::Variant => {
-                        remaining += 2;
+                        remaining = self.more_to_skip(remaining, 2)?;
                     }
                     Mark::Some => {
-                        remaining += 1;
+                        remaining = self.more_to_skip(remaining, 1)?;
                     }
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
@@ -95,11 +95,12 @@ where
                 }
                 Kind::Sequence => {
                     let len = self.decode_len(tag)?;
-                    remaining += len;
+                    remaining = self.more_to_skip(remaining, len)?;
                 }
                 Kind::Map => {
                     let len = self.decode_len(tag)?;
-                    remaining += len * 2;
+                    remaining = self.more_to_skip(remaining, len)?;
+                    remaining = self.more_to_skip(remaining, len)?;
                 }
                 kind => {
                     return Err(self
@@ -114,6 +115,16 @@ where
         Ok(())
     }
 
+    /// Add to the number of values to skip.
+    #[inline]
+    fn more_to_skip(&self, remaining: usize, len: usize) -> Result<usize, C::Error> {
+        let Some(remaining) = remaining.checked_add(len) else {
+            return Err(self.cx.message("Too many values to skip"));
+        };
+
+        Ok(remaining)
+    }
+
     // Standard function for decoding a pair sequence.
     #[inline]
     fn shared_decode_map(mut self) -> Result<RemainingSelfDecoder<OPT, R, C, M>, C::Error> {
diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..e0fbb95 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             remaining -= 1;
@@ -87,7 +87,11 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    let Some(more) = remaining.checked_add(len) else {
+                        return Err(self.cx.message("Too many values to skip"));
+                    };
+
+                    remaining = more;
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
-- 
2.43.0


From c20ac69b8dbedd0e853b9559570892cf41cd4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 18/53] fix: decode descriptive numbers without consuming their
 tag twice

---
 crates/musli/src/descriptive/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index fd69267..1812ef1 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -383,7 +383,10 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected tag in input"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From a94397d6a1df4b0234586291861b6b95c90e0e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 19/53] fix: coerce descriptive numbers exactly or report an
 error

---
 crates/musli/src/descriptive/de.rs            |  6 +--
 .../musli/src/descriptive/integer_encoding.rs | 54 +++++++++++++------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 1812ef1..e1a6966 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -15,7 +15,7 @@ use crate::value::{IntoValueDecoder, Value};
 use crate::Context;
 use crate::{Options, Reader};
 
-use super::integer_encoding::{decode_typed_signed, decode_typed_unsigned};
+use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
 const BUFFER_OPTIONS: Options = options::new().build();
@@ -539,7 +539,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        let bits = self.decode_u32()?;
+        let bits = decode_typed_float(self.cx, self.reader, F32)?;
         Ok(f32::from_bits(bits))
     }
 
@@ -547,7 +547,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        let bits = self.decode_u64()?;
+        let bits = decode_typed_float(self.cx, self.reader, F64)?;
         Ok(f64::from_bits(bits))
     }
 
diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..835c7c5 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -21,25 +21,25 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned + TryFrom<T::Signed>,
+    T: Unsigned + TryFrom<i128>,
 {
-    let (value, kind): (T, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
+    match decode_typed(cx, reader.borrow_mut())? {
         NumberKind::Signed => {
-            let value = zig::decode(value);
+            // NB: A zig-zag encoded number which fits in `T` might need one
+            // more bit than what's available in `T`.
+            let value = zig::decode(c::decode::<_, _, u128>(cx, reader)?);
 
             let Ok(value) = T::try_from(value) else {
-                return Err(cx.message(format_args!("Unsigned value outside of signed range")));
+                return Err(cx.message(format_args!("Signed value outside of unsigned range")));
             };
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => Ok(value),
+        NumberKind::Unsigned => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -47,6 +47,28 @@ where
     }
 }
 
+/// Decode the bits of a floating point number with the given tag data.
+#[inline]
+pub(crate) fn decode_typed_float<'de, C, R, T>(
+    cx: C,
+    mut reader: R,
+    bits: u8,
+) -> Result<T, C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
+    T: Unsigned,
+{
+    let expected = Tag::new(Kind::Number, bits);
+    let tag = Tag::from_byte(reader.read_byte(cx)?);
+
+    if tag != expected {
+        return Err(cx.message(format_args!("Expected {expected:?}, got {tag:?}")));
+    }
+
+    c::decode(cx, reader)
+}
+
 #[inline]
 fn encode_typed<C, W, T>(cx: C, mut writer: W, bits: u8, value: T) -> Result<(), C::Error>
 where
@@ -59,11 +81,10 @@ where
 }
 
 #[inline]
-fn decode_typed<'de, C, R, T>(cx: C, mut reader: R) -> Result<(T, NumberKind), C::Error>
+fn decode_typed<'de, C, R>(cx: C, mut reader: R) -> Result<NumberKind, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned,
 {
     let tag = Tag::from_byte(reader.read_byte(cx)?);
 
@@ -71,8 +92,7 @@ where
         return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
     }
 
-    let kind = tag.number_kind();
-    Ok((c::decode(cx, reader)?, kind))
+    Ok(tag.number_kind())
 }
 
 #[inline]
@@ -91,17 +111,17 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
     T: Signed + TryFrom<<T as Signed>::Unsigned>,
 {
-    let (value, kind): (T::Unsigned, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
-        NumberKind::Signed => Ok(zig::decode(value)),
+    match decode_typed(cx, reader.borrow_mut())? {
+        NumberKind::Signed => Ok(zig::decode(c::decode::<_, _, T::Unsigned>(cx, reader)?)),
         NumberKind::Unsigned => {
+            let value = c::decode::<_, _, T::Unsigned>(cx, reader)?;
+
             let Ok(value) = T::try_from(value) else {
                 return Err(cx.message(format_args!("Unsigned value outside of signed range")));
             };
-- 
2.43.0


From d04a5a2d5919b76223993fc8b96ab7027cb71d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 20/53] fix: only encode arrays bitwise if their elements
 decode the same either way

---
 crates/musli-core/src/en/encode.rs          |  8 ++++++++
 crates/musli-core/src/impls/mod.rs          |  9 +++++++--
 crates/musli-macros/src/en.rs               |  4 ++++
 crates/musli-macros/src/internals/mod.rs    |  2 +-
 crates/musli-macros/src/internals/packed.rs | 15 +++++++++++++++
 5 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/crates/musli-core/src/en/encode.rs b/crates/musli-core/src/en/encode.rs
index b3a9152..255e25e 100644
--- a/crates/musli-core/src/en/encode.rs
+++ b/crates/musli-core/src/en/encode.rs
@@ -56,6 +56,14 @@ pub trait Encode<M> {
     /// not have a `Drop` implementation.
     const IS_BITWISE_ENCODE: bool = false;
 
+    /// Whether the bitwise representation of the type is the one it also has
+    /// when its parts are decoded one by one.
+    ///
+    /// An array is only bitwise encodeable if this holds for its elements,
+    /// since an array which is not bitwise decoded is preceeded by its length.
+    #[doc(hidden)]
+    const IS_BITWISE_SYMMETRIC: bool = Self::IS_BITWISE_ENCODE;
+
     /// The underlying type being encoded.
     ///
     /// This is used to "peek through" types like references being encoded.
diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 2c2554a..82f07dd 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -134,6 +134,7 @@ macro_rules! non_zero {
     ($ty:ty) => {
         impl<M> Encode<M> for $ty {
             const IS_BITWISE_ENCODE: bool = true;
+            const IS_BITWISE_SYMMETRIC: bool = false;
 
             type Encode = Self;
 
@@ -213,8 +214,9 @@ impl<M, T, const N: usize> Encode<M> for [T; N]
 where
     T: Encode<M>,
 {
-    const IS_BITWISE_ENCODE: bool =
-        T::IS_BITWISE_ENCODE && core::mem::size_of::<T>() % core::mem::align_of::<T>() == 0;
+    const IS_BITWISE_ENCODE: bool = T::IS_BITWISE_ENCODE
+        && T::IS_BITWISE_SYMMETRIC
+        && core::mem::size_of::<T>() % core::mem::align_of::<T>() == 0;
 
     type Encode = [T; N];
 
@@ -358,6 +360,7 @@ impl<M> Encode<M> for bool {
     // A boolean is bitwise encodeable since it's guaranteed to inhabit a valid
     // bit pattern of one byte without padding.
     const IS_BITWISE_ENCODE: bool = true;
+    const IS_BITWISE_SYMMETRIC: bool = false;
 
     #[inline]
     fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
@@ -396,6 +399,7 @@ impl<M> Encode<M> for char {
     // A char bitwise encodeable since it's guaranteed to inhabit a valid bit
     // pattern of a u32 and can be bitwise copied when encoded.
     const IS_BITWISE_ENCODE: bool = true;
+    const IS_BITWISE_SYMMETRIC: bool = false;
 
     #[inline]
     fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
@@ -760,6 +764,7 @@ where
     T: Encode<M>,
 {
     const IS_BITWISE_ENCODE: bool = T::IS_BITWISE_ENCODE;
+    const IS_BITWISE_SYMMETRIC: bool = T::IS_BITWISE_SYMMETRIC;
 
     type Encode = Self;
 
diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index d939b31..5f3eac9 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -51,14 +51,17 @@ pub(crate) fn expand_encode_entry(b: &Build<'_>) -> Result<TokenStream> {
     } = b.tokens;
 
     let packed;
+    let symmetric;
 
     let (body, size_hint) = match &b.data {
         BuildData::Struct(st) => {
             packed = crate::internals::packed(b, st);
+            symmetric = crate::internals::symmetric(b, st);
             encode_map(cx, b, st)?
         }
         BuildData::Enum(en) => {
             packed = syn::parse_quote!(false);
+            symmetric = syn::parse_quote!(false);
             encode_enum(cx, b, en)?
         }
     };
@@ -121,6 +124,7 @@ pub(crate) fn expand_encode_entry(b: &Build<'_>) -> Result<TokenStream> {
                 type Encode = Self;
 
                 const IS_BITWISE_ENCODE: bool = #packed;
+                const IS_BITWISE_SYMMETRIC: bool = #symmetric;
 
                 #[inline]
                 fn encode<#e_param>(&self, #encoder_var: #e_param) -> #result<(), <#e_param as #encoder_t>::Error>
diff --git a/crates/musli-macros/src/internals/mod.rs b/crates/musli-macros/src/internals/mod.rs
index 382bfc2..9aec6e9 100644
--- a/crates/musli-macros/src/internals/mod.rs
+++ b/crates/musli-macros/src/internals/mod.rs
@@ -16,7 +16,7 @@ pub(crate) use self::ctxt::Ctxt;
 pub(crate) use self::expansion::Expansion;
 pub(crate) use self::mode::{ImportedMethod, Mode};
 pub(crate) use self::name::NameAll;
-pub(crate) use self::packed::packed;
+pub(crate) use self::packed::{packed, symmetric};
 pub(crate) use self::tokens::Tokens;
 
 pub(crate) type Result<T, E = ()> = std::result::Result<T, E>;
diff --git a/crates/musli-macros/src/internals/packed.rs b/crates/musli-macros/src/internals/packed.rs
index 05f83e7..4d7f268 100644
--- a/crates/musli-macros/src/internals/packed.rs
+++ b/crates/musli-macros/src/internals/packed.rs
@@ -67,3 +67,18 @@ pub(crate) fn packed(e: &Build<'_>, st: &Body<'_>) -> syn::Expr {
         }
     }
 }
+
+/// Whether the bitwise representation of every field is the one which is
+/// decoded if the type itself is not bitwise decoded.
+pub(crate) fn symmetric(e: &Build<'_>, st: &Body<'_>) -> syn::Expr {
+    let base = st.all_fields.iter().all(|f| f.encode_path.1.is_default());
+
+    match st.packing {
+        (_, Packing::Packed) if base && st.all_fields.len() == st.unskipped_fields().count() => {
+            let trait_t = e.mode.as_trait_t(&e.p.allocator_ident);
+            let types = st.all_fields.iter().map(|f| f.ty);
+            syn::parse_quote!(true #(&& <#types as #trait_t>::IS_BITWISE_SYMMETRIC)*)
+        }
+        _ => syn::parse_quote!(false),
+    }
+}
-- 
2.43.0


From a4f427dce887f99077ef59c8db6ee5e4bd1941d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 21/53] fix: decoding an untagged variant consumes its input

---
 crates/musli-macros/src/de.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index accf5df..e147603 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -330,14 +330,17 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         let decode = decode_struct(cx, b, &v.st)?;
 
         decode_head.push(quote! {
-            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#decoder_var) {
-                #context_t::restore(#ctx_var, &#mark_var);
+            let #result_var: #option<#result<Self, <#d_param as #decoder_t<#lt>>::Error>> = match #decoder_t::try_clone(&#decoder_var) {
+                #option::Some(#decoder_var) => #option::Some((|| #decode)()),
+                #option::None => #option::None,
+            };
 
-                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+            #context_t::restore(#ctx_var, &#mark_var);
 
-                if let #result::Ok(output) = #result_var {
-                    break 'output output;
-                }
+            if let #option::Some(#result::Ok(..)) = #result_var {
+                // The variant matches, so decode it from the original decoder
+                // to consume the input.
+                break 'output (#decode)?;
             }
         });
     }
-- 
2.43.0


From 0db56c9ed3829696bae3ab0496c4555049df3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 22/53] fix: decode RangeFull the way it is encoded

---
 crates/musli-core/src/impls/range.rs | 36 ++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/impls/range.rs b/crates/musli-core/src/impls/range.rs
index 84004e8..2453683 100644
--- a/crates/musli-core/src/impls/range.rs
+++ b/crates/musli-core/src/impls/range.rs
@@ -12,7 +12,6 @@ macro_rules! implement {
             const IS_BITWISE_ENCODE: bool = false;
 
             #[inline]
-            #[allow(unused)]
             fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
             where
                 E: Encoder<Mode = M>,
@@ -96,7 +95,40 @@ macro_rules! implement_new {
     }
 }
 
-implement!(RangeFull {}, 0);
+impl<M> Encode<M> for RangeFull {
+    const IS_BITWISE_ENCODE: bool = false;
+
+    #[inline]
+    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
+    where
+        E: Encoder<Mode = M>,
+    {
+        encoder.encode_sequence_fn(0, |_| Ok(()))
+    }
+
+    type Encode = Self;
+
+    #[inline]
+    fn as_encode(&self) -> &Self::Encode {
+        self
+    }
+}
+
+impl<'de, M, A> Decode<'de, M, A> for RangeFull
+where
+    A: Allocator,
+{
+    const IS_BITWISE_DECODE: bool = false;
+
+    #[inline]
+    fn decode<D>(decoder: D) -> Result<Self, D::Error>
+    where
+        D: Decoder<'de, Mode = M, Allocator = A>,
+    {
+        decoder.decode_sequence(|_| Ok(RangeFull))
+    }
+}
+
 implement!(Range<T> { start, end }, 2);
 implement!(RangeFrom<T> { start }, 1);
 implement!(RangeTo<T> { end }, 1);
-- 
2.43.0


From ed489610db9d8cd6dd3d1e1567c3eacca2ef8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 23/53] fix: decode OsString as bytes, which it is encoded as

---
 crates/musli-core/src/impls/alloc.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index d94e753..b4a3e19 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -917,7 +917,28 @@ where
                 #[cfg(unix)]
                 PlatformTag::Unix => {
                     use std::os::unix::ffi::OsStringExt;
-                    Ok(OsString::from_vec(variant.decode_value()?.decode()?))
+
+                    struct Visitor;
+
+                    #[crate::de::unsized_visitor(crate)]
+                    impl<C> UnsizedVisitor<'_, C, [u8]> for Visitor
+                    where
+                        C: Context,
+                    {
+                        type Ok = OsString;
+
+                        #[inline]
+                        fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                            write!(f, "a literal byte reference")
+                        }
+
+                        #[inline]
+                        fn visit_ref(self, _: C, bytes: &[u8]) -> Result<Self::Ok, Self::Error> {
+                            Ok(OsString::from_vec(bytes.to_vec()))
+                        }
+                    }
+
+                    variant.decode_value()?.decode_bytes(Visitor)
                 }
                 #[cfg(not(windows))]
                 PlatformTag::Windows => Err(cx.message("Unsupported OsString::Windows variant")),
-- 
2.43.0


From f34093661a316ef8c0985210960cea7ffcf7afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 24/53] fix: only 0 and 1 mark an option in the storage format

---
 crates/musli/src/storage/de.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..c21af58 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -295,8 +295,13 @@ where
                 Ok(Some(self))
             }
         } else {
-            let b = self.reader.read_byte(self.cx)?;
-            Ok(if b == 1 { Some(self) } else { None })
+            let mark = self.cx.mark();
+
+            match self.reader.read_byte(self.cx)? {
+                0 => Ok(None),
+                1 => Ok(Some(self)),
+                b => Err(self.cx.message_at(&mark, BadOption { actual: b })),
+            }
         }
     }
 
@@ -717,6 +722,18 @@ impl fmt::Display for ExpectedEmptySequence {
     }
 }
 
+struct BadOption {
+    actual: u8,
+}
+
+impl fmt::Display for BadOption {
+    #[inline]
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let Self { actual } = *self;
+        write!(f, "Bad option, got byte {actual}")
+    }
+}
+
 struct BadBoolean {
     actual: u8,
 }
-- 
2.43.0


From 50cedcea6ffb3ce351867a0f8ec8b79d3b999e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 25/53] fix: encode empty values into dynamic values

---
 crates/musli/src/value/en.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..8a46ae1 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,6 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
+        self.output.write(self.cx, Value::Unit)?;
         Ok(())
     }
 
-- 
2.43.0


From 3c4047d84fbbc9f317a1cc7bab2f20e5352f4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 26/53] fix: report JSON integers which overflow in their last
 digit instead of wrapping

---
 crates/musli/src/json/parser/integer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..cca82e3 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -521,11 +521,13 @@ where
     P: Parser<'de>,
     C: Context,
 {
-    let Some(out) = out.checked_mul10() else {
+    let n = T::from_byte(p.read_byte(cx)? - b'0');
+
+    let Some(out) = out.checked_mul10().and_then(|out| out.checked_add(n)) else {
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    Ok(out)
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From 1cd020a77247765a7240b23505d876afbe73e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 27/53] fix: skip whitespace in front of JSON floats

---
 crates/musli/src/json/parser/mut_slice_parser.rs | 4 ++++
 crates/musli/src/json/parser/slice_parser.rs     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 5732b96..e249ac5 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -136,6 +136,8 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(self.slice) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
@@ -149,6 +151,8 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(self.slice) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
diff --git a/crates/musli/src/json/parser/slice_parser.rs b/crates/musli/src/json/parser/slice_parser.rs
index 36d7afd..9eae9d4 100644
--- a/crates/musli/src/json/parser/slice_parser.rs
+++ b/crates/musli/src/json/parser/slice_parser.rs
@@ -128,6 +128,8 @@ impl<'de> Parser<'de> for SliceParser<'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(&self.slice[self.index..]) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
@@ -141,6 +143,8 @@ impl<'de> Parser<'de> for SliceParser<'de> {
     where
         C: Context,
     {
+        self.skip_whitespace(cx);
+
         let Some((value, read)) = crate::dec2flt::dec2flt(&self.slice[self.index..]) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
-- 
2.43.0


From b251898b6c9c7dcca3405d83970461b7be6cb51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 28/53] fix: reject JSON byte arrays which are too long instead
 of panicking

---
 crates/musli/src/json/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..c23585b 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -281,8 +281,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
+                if index < N {
                     bytes[index] = item.decode_u8()?;
+                } else {
+                    item.skip()?;
                 }
 
                 index += 1;
-- 
2.43.0


From 0fe4141c9a1a46fe5d91d6f407dd19b689237252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 29/53] fix: decode untagged JSON enums from mutable sources

---
 crates/musli/src/json/parser/mut_slice_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index e249ac5..ffe0153 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -1,6 +1,6 @@
 use crate::alloc::Vec;
 use crate::json::error::ErrorMessage;
-use crate::json::parser::{Parser, StringReference};
+use crate::json::parser::{Parser, SliceParser, StringReference};
 use crate::reader::SliceUnderflow;
 use crate::Context;
 
@@ -34,7 +34,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         Self: 'this;
 
-    type TryClone = MutSliceParser<'a, 'de>;
+    type TryClone = SliceParser<'de>;
 
     #[inline]
     fn borrow_mut(&mut self) -> Self::Mut<'_> {
@@ -43,7 +43,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        None
+        Some(SliceParser::new(self.slice))
     }
 
     #[inline]
-- 
2.43.0


From 9737ecc0ce12246afe4bbd6baf8162ef28c90953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 30/53] fix: reject JSON integer keys followed by something
 else

---
 crates/musli/src/json/de/key_signed_visitor.rs   | 13 +++++++++++--
 crates/musli/src/json/de/key_unsigned_visitor.rs | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/json/de/key_signed_visitor.rs b/crates/musli/src/json/de/key_signed_visitor.rs
index 446acf3..a14d61e 100644
--- a/crates/musli/src/json/de/key_signed_visitor.rs
+++ b/crates/musli/src/json/de/key_signed_visitor.rs
@@ -2,8 +2,9 @@ use core::fmt;
 use core::marker;
 
 use crate::de::UnsizedVisitor;
+use crate::json::error::IntegerError;
 use crate::json::parser::integer::Signed;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_signed;
@@ -36,6 +37,14 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_signed(cx, &mut SliceParser::new(bytes))
+        let start = cx.mark();
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_signed(cx, &mut parser)?;
+
+        if parser.peek().is_some() {
+            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+        }
+
+        Ok(value)
     }
 }
diff --git a/crates/musli/src/json/de/key_unsigned_visitor.rs b/crates/musli/src/json/de/key_unsigned_visitor.rs
index e50fc0e..9e0c66c 100644
--- a/crates/musli/src/json/de/key_unsigned_visitor.rs
+++ b/crates/musli/src/json/de/key_unsigned_visitor.rs
@@ -2,8 +2,9 @@ use core::fmt;
 use core::marker;
 
 use crate::de::UnsizedVisitor;
+use crate::json::error::IntegerError;
 use crate::json::parser::integer::Unsigned;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_unsigned;
@@ -35,6 +36,14 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_unsigned(cx, &mut SliceParser::new(bytes))
+        let start = cx.mark();
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_unsigned(cx, &mut parser)?;
+
+        if parser.peek().is_some() {
+            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+        }
+
+        Ok(value)
     }
 }
-- 
2.43.0


From 7ba39f0f57eed083b24ba156eb642939b0ce3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 31/53] fix: do not overflow negating the smallest JSON
 exponent

---
 crates/musli/src/json/parser/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index cca82e3..d789c79 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -198,7 +198,7 @@ where
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
 
-- 
2.43.0


From 7540f3dd15a829dab6e7a89642ac9c6db47b9ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 32/53] fix: reject JSON numbers with a fraction or exponent as
 integers without parse-full instead of reading a part of them

---
 crates/musli/src/json/parser/integer.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index d789c79..6fd69ee 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -273,7 +273,23 @@ where
     p.skip_whitespace(cx);
 
     let start = cx.mark();
-    decode_unsigned_base::<T, _, _>(cx, p, &start)
+    let value = decode_unsigned_base::<T, _, _>(cx, p.borrow_mut(), &start)?;
+    ensure_whole(cx, p, &start)?;
+    Ok(value)
+}
+
+/// Ensure that a number ends where its whole part does.
+#[inline]
+fn ensure_whole<'de, C, P>(cx: C, mut p: P, start: &C::Mark) -> Result<(), C::Error>
+where
+    P: Parser<'de>,
+    C: Context,
+{
+    if matches!(p.peek(), Some(b'.' | b'e' | b'E')) {
+        return Err(cx.message_at(start, IntegerError::Decimal));
+    }
+
+    Ok(())
 }
 
 /// Fully parse an unsigned value.
@@ -373,8 +389,11 @@ where
 
     let start = cx.mark();
 
-    match decode_signed_base(cx, p)?.compute() {
-        Ok(value) => Ok(value),
+    match decode_signed_base(cx, p.borrow_mut())?.compute() {
+        Ok(value) => {
+            ensure_whole(cx, p, &start)?;
+            Ok(value)
+        }
         Err(error) => Err(cx.message_at(&start, error)),
     }
 }
-- 
2.43.0


From e1587483afcead0e4c1ab5a9878a6afbf4238da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 33/53] fix: keep mutable JSON string sources on a character
 boundary after an error

---
 crates/musli/src/json/parser/integer.rs       | 32 ++++++++++++++-----
 .../musli/src/json/parser/mut_slice_parser.rs |  8 ++---
 crates/musli/src/json/parser/parser.rs        | 13 ++++----
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 6fd69ee..18710f0 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -227,12 +227,18 @@ where
         p.skip(cx, 1)?;
     }
 
-    match p.read_byte(cx)? {
-        b'0' => (),
-        b if is_digit_nonzero(b) => {
+    match p.peek() {
+        Some(b'0') => {
+            p.skip(cx, 1)?;
+        }
+        Some(b) if is_digit_nonzero(b) => {
             p.consume_while(cx, is_digit)?;
         }
-        _ => {
+        b => {
+            if b.is_some_and(|b| b.is_ascii()) {
+                p.skip(cx, 1)?;
+            }
+
             return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
         }
     }
@@ -426,9 +432,15 @@ where
     P: Parser<'de>,
     C: Context,
 {
-    let base = match p.read_byte(cx)? {
-        b'0' => T::ZERO,
-        b if is_digit_nonzero(b) => {
+    // NB: non-ASCII bytes must not be consumed, they might be the start of a
+    // multi-byte character.
+    let base = match p.peek() {
+        Some(b'0') => {
+            p.skip(cx, 1)?;
+            T::ZERO
+        }
+        Some(b) if is_digit_nonzero(b) => {
+            p.skip(cx, 1)?;
             let mut base = T::from_byte(b - b'0');
 
             while let Some(true) = p.peek().map(is_digit) {
@@ -437,7 +449,11 @@ where
 
             base
         }
-        _ => {
+        b => {
+            if b.is_some_and(|b| b.is_ascii()) {
+                p.skip(cx, 1)?;
+            }
+
             return Err(cx.message_at(start, IntegerError::InvalidNumeric));
         }
     };
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index ffe0153..d2df371 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -58,9 +58,9 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         C: Context,
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
-        let out = access.parse_string(validate, start, scratch);
+        let out = access.parse_string(validate, start, scratch)?;
         *self.slice = &self.slice[access.index..];
-        out
+        Ok(out)
     }
 
     #[inline]
@@ -69,9 +69,9 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         C: Context,
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
-        let out = access.skip_string();
+        access.skip_string()?;
         *self.slice = &self.slice[access.index..];
-        out
+        Ok(())
     }
 
     #[inline]
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 76e3104..94853df 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -156,13 +156,14 @@ pub trait Parser<'de>: private::Sealed {
 
         let mark = cx.mark();
 
-        let mut bytes = [0u8; 8];
-        let bytes = &mut bytes[..exact.len()];
-
-        self.read(cx, bytes)?;
+        // NB: bytes which do not match must not be consumed, they might be the
+        // start of a multi-byte character.
+        for &b in exact.as_bytes() {
+            if self.peek() != Some(b) {
+                return Err(cx.message_at(&mark, format_args!("Expected `{exact}`")));
+            }
 
-        if bytes != exact.as_bytes() {
-            return Err(cx.message_at(&mark, format_args!("Expected `{exact}`")));
+            self.skip(cx, 1)?;
         }
 
         Ok(())
-- 
2.43.0


From 05a88b74ab36d0924d7e8f6af5a5c32af0467ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 34/53] fix: read JSON numbers of unknown type which are not
 integers as the nearest float

---
 crates/musli/src/json/parser/integer.rs | 172 +-----------------------
 crates/musli/src/json/parser/parser.rs  |  36 +++--
 2 files changed, 23 insertions(+), 185 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 18710f0..3b09f9f 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -2,8 +2,7 @@ use crate::json::error::IntegerError;
 use crate::json::parser::Parser;
 use crate::Context;
 
-use self::traits::FromUnsigned;
-pub(crate) use self::traits::{Float, Signed, Unsigned};
+pub(crate) use self::traits::{Signed, Unsigned};
 
 /// Fully deconstructed parts of a signed number.
 #[non_exhaustive]
@@ -74,25 +73,6 @@ where
             None => Err(IntegerError::IntegerOverflow),
         }
     }
-
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T::Unsigned>,
-    {
-        let Self {
-            is_negative,
-            unsigned: parts,
-        } = self;
-        let value = parts.compute_float::<F>();
-
-        if is_negative {
-            value.negate()
-        } else {
-            value
-        }
-    }
 }
 
 /// The mantissa, or anything after a decimal point.
@@ -104,32 +84,6 @@ pub(crate) struct Mantissa<T> {
     exp: i32,
 }
 
-impl<T> Mantissa<T>
-where
-    T: Unsigned,
-{
-    fn into_float<F>(self) -> Mantissa<F>
-    where
-        F: FromUnsigned<T>,
-    {
-        Mantissa {
-            value: self.value.into_float::<F>(),
-            exp: self.exp,
-        }
-    }
-}
-
-impl<F> Mantissa<F>
-where
-    F: Float,
-{
-    /// Compute as float with a negative exponent.
-    #[inline]
-    fn compute_float(self, e: i32) -> F {
-        self.value.pow10(e - self.exp)
-    }
-}
-
 impl<T> Default for Mantissa<T>
 where
     T: Unsigned,
@@ -201,16 +155,6 @@ where
             Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
-
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T>,
-    {
-        let Self { base, m, e } = self;
-        base.into_float::<F>().pow10(e) + m.into_float::<F>().compute_float(e)
-    }
 }
 
 /// Implementation to skip over a well-formed JSON number.
@@ -622,26 +566,12 @@ mod traits {
         fn negate(self) -> Option<Self::Signed>;
 
         fn signed(self) -> Option<Self::Signed>;
-
-        fn into_float<F>(self) -> F
-        where
-            F: FromUnsigned<Self>;
     }
 
     pub(crate) trait Signed: Sized + fmt::Debug {
         type Unsigned: Unsigned<Signed = Self>;
     }
 
-    pub(crate) trait FromUnsigned<T> {
-        fn from_unsigned(value: T) -> Self;
-    }
-
-    pub(crate) trait Float: Sized + Add<Self, Output = Self> {
-        fn negate(self) -> Self;
-
-        fn pow10(self, e: i32) -> Self;
-    }
-
     macro_rules! count {
         (()) => { 0 };
         ((_)) => { 1 };
@@ -758,11 +688,6 @@ mod traits {
                         Some(self as $signed)
                     }
                 }
-
-                #[inline]
-                fn into_float<F>(self) -> F where F: FromUnsigned<Self> {
-                    F::from_unsigned(self)
-                }
             }
 
             impl Signed for $signed {
@@ -881,99 +806,4 @@ mod traits {
             10000000000000000000,
         ]
     );
-
-    macro_rules! float {
-        ($float:ty, $fallback:path) => {
-            impl Float for $float {
-                #[inline]
-                fn negate(self) -> Self {
-                    -self
-                }
-
-                #[inline]
-                #[cfg(feature = "std")]
-                fn pow10(self, e: i32) -> Self {
-                    self * <$float>::powi(10.0, e)
-                }
-
-                #[inline]
-                #[cfg(not(feature = "std"))]
-                fn pow10(self, e: i32) -> Self {
-                    self * $fallback(10.0, e)
-                }
-            }
-
-            impl FromUnsigned<u8> for $float {
-                fn from_unsigned(value: u8) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u16> for $float {
-                fn from_unsigned(value: u16) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u32> for $float {
-                fn from_unsigned(value: u32) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u64> for $float {
-                fn from_unsigned(value: u64) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u128> for $float {
-                fn from_unsigned(value: u128) -> Self {
-                    value as $float
-                }
-            }
-        };
-    }
-
-    float!(f32, self::no_std::powf32);
-    float!(f64, self::no_std::powf64);
-
-    #[cfg(not(feature = "std"))]
-    mod no_std {
-        macro_rules! powf {
-            ($ty:ty, $name:ident) => {
-                #[inline(never)]
-                pub(crate) fn $name(mut base: $ty, mut exp: i32) -> $ty {
-                    if exp == 0 {
-                        return 1.0;
-                    }
-
-                    while exp & 1 == 0 {
-                        base = base * base;
-                        exp >>= 1;
-                    }
-
-                    if exp == 1 {
-                        return base;
-                    }
-
-                    let mut acc = base;
-
-                    while exp > 1 {
-                        exp >>= 1;
-                        base = base * base;
-
-                        if exp & 1 == 1 {
-                            acc = acc * base;
-                        }
-                    }
-
-                    acc
-                }
-            };
-        }
-
-        powf!(f32, powf32);
-        powf!(f64, powf64);
-    }
 }
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 94853df..9071790 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -1,6 +1,6 @@
 use crate::alloc::Vec;
 use crate::de::Visitor;
-use crate::json::parser::integer::decode_signed_full;
+use crate::json::parser::integer::{decode_signed_full, skip_number};
 use crate::json::parser::{StringReference, Token};
 use crate::Context;
 
@@ -177,17 +177,26 @@ pub trait Parser<'de>: private::Sealed {
         C: Context,
         V: Visitor<'de, C, Error = C::Error, Allocator = C::Allocator>,
     {
-        let signed = decode_signed_full::<i128, _, _>(cx, self)?;
+        // Numbers which are not whole or do not fit are floats, so whether they
+        // are is decided ahead of consuming them.
+        let signed = self.try_clone().and_then(|mut p| {
+            let cx = crate::context::new_in(cx.alloc());
+            decode_signed_full::<i128, _, _>(&cx, &mut p).ok()
+        });
+
+        let Some(signed) = signed else {
+            let value = self.parse_f64(cx)?;
+            return visitor.visit_f64(cx, value);
+        };
 
         if signed.is_negative {
-            let value = match signed.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.compute_float();
-                    return visitor.visit_f64(cx, value);
-                }
+            let Ok(value) = signed.compute() else {
+                let value = self.parse_f64(cx)?;
+                return visitor.visit_f64(cx, value);
             };
 
+            skip_number(cx, self.borrow_mut())?;
+
             if value >= i8::MIN as i128 && value <= i8::MAX as i128 {
                 return visitor.visit_i8(cx, value as i8);
             }
@@ -210,14 +219,13 @@ pub trait Parser<'de>: private::Sealed {
 
             visitor.visit_i128(cx, value)
         } else {
-            let value = match signed.unsigned.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.unsigned.compute_float();
-                    return visitor.visit_f64(cx, value);
-                }
+            let Ok(value) = signed.unsigned.compute() else {
+                let value = self.parse_f64(cx)?;
+                return visitor.visit_f64(cx, value);
             };
 
+            skip_number(cx, self.borrow_mut())?;
+
             if value <= u8::MAX as u128 {
                 return visitor.visit_u8(cx, value as u8);
             }
-- 
2.43.0


From c60357a9ba30db30bc0ef6edbfaebd10a17fea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 35/53] fix: read whole JSON numbers with zeros in their
 fraction or exponent

---
 crates/musli/src/json/parser/integer.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 3b09f9f..cd82d60 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -134,23 +134,29 @@ where
         }
 
         if e >= 0 {
-            // Decoding the specified mantissa would result in a fractional number.
-            let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
-
             if !base.is_zero() {
                 base = check!(base.checked_pow10(e as u32), IntegerOverflow);
             }
 
-            let base = check! {
-                m.value
-                    .checked_pow10(mantissa_exp)
-                    .and_then(|m| base.checked_add(m)),
-                IntegerOverflow
-            };
+            // NB: a mantissa which only consists of zeros does not contribute.
+            if !m.value.is_zero() {
+                // Decoding the specified mantissa would result in a fractional number.
+                let mantissa_exp =
+                    check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
+
+                base = check! {
+                    m.value
+                        .checked_pow10(mantissa_exp)
+                        .and_then(|m| base.checked_add(m)),
+                    IntegerOverflow
+                };
+            }
 
             Ok(base)
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
+        } else if base.is_zero() {
+            Ok(base)
         } else {
             Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
-- 
2.43.0


From f715b51bd770d46f2a771eac395b3fd39f9b74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:25 +0000
Subject: [PATCH 36/53] fix: SliceReader::read_array advances the context once

---
 crates/musli/src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/musli/src/reader.rs b/crates/musli/src/reader.rs
index ac40301..56f0b05 100644
--- a/crates/musli/src/reader.rs
+++ b/crates/musli/src/reader.rs
@@ -150,9 +150,8 @@ pub trait Reader<'de>: self::sealed::Sealed {
             }
 
             #[inline]
-            fn visit_ref(mut self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
+            fn visit_ref(mut self, _: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
                 self.0.copy_from_slice(bytes);
-                cx.advance(bytes.len());
                 Ok(self.0)
             }
         }
-- 
2.43.0


From ee6a08b6be62502f389480f0b0b44d2f86e8235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 37/53] fix: slice allocator keeps the rest of its free headers

---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..4f004d8 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -635,8 +635,9 @@ impl Internal {
     /// The caller msut ensure that there is enough space for the region and
     /// that the end pointer has been aligned to the requirements of `Header`.
     unsafe fn alloc_header(&mut self, end: *mut MaybeUninit<u8>) -> Option<Region> {
-        if let Some(region) = self.free_head.take() {
+        if let Some(region) = self.free_head {
             let mut region = self.region(region);
+            self.free_head = region.next.take();
 
             region.range.start = self.free.start;
             region.range.end = end;
-- 
2.43.0


From d445d39337d8d9e9d91ba84d46f0cfdef5a9b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 38/53] fix: slice allocator never places a header over the
 region it describes

---
 crates/musli/src/alloc/slice.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 4f004d8..b15c5f1 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -645,18 +645,20 @@ impl Internal {
             return Some(region);
         }
 
-        debug_assert_eq!(
-            self.free.end.align_offset(align_of::<Header>()),
-            0,
-            "End pointer should be aligned to header"
-        );
-
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
-        if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
+        // The header must neither overlap the region it describes nor wrap
+        // around.
+        if ptr < end.cast() || ptr >= self.free.end.cast() {
             return None;
         }
 
+        debug_assert_eq!(
+            ptr.align_offset(align_of::<Header>()),
+            0,
+            "Headers should be aligned"
+        );
+
         let id = HeaderId::new(self.full.end.cast::<Header>().offset_from(ptr))?;
 
         ptr.write(Header {
-- 
2.43.0


From e279bdf7e7063b118f391badf2d0d0408ec7fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 39/53] fix: slice allocator only merges with the allocation it
 was given

---
 crates/musli/src/alloc/slice.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index b15c5f1..9aa74f8 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -397,6 +397,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // NB: Placing this here to make miri happy, since accessing the
         // slice will mean mutably accessing the internal state.
         let other_ptr = buf.as_ptr().cast();
+        let other_cap = buf.capacity();
 
         unsafe {
             let i = &mut *internal.get();
@@ -416,12 +417,19 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
                 return Err(buf);
             };
 
+            let next = i.region(next);
+
+            // Empty regions share their address with the ones next to them, so
+            // the next region is only known to belong to the other buffer if
+            // neither is empty.
+            if next.capacity() == 0 || other_cap == 0 {
+                return Err(buf);
+            }
+
             // Prevent the other buffer from being dropped, since we're
             // taking care of the allocation in here directly instead.
             forget(buf);
 
-            let next = i.region(next);
-
             let to = this.range.start.wrapping_add(this_len);
 
             // Data needs to be shuffle back to the end of the initialized
-- 
2.43.0


From 13b3a8a6159aea3d99a894cb203fce609d97301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 40/53] fix: slice allocator reclaims the gap made to align its
 first region

---
 crates/musli/src/alloc/slice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 9aa74f8..e02025a 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -738,6 +738,7 @@ impl Internal {
             let mut region = self.alloc_header(aligned_start)?;
 
             self.push_back(&mut region);
+            self.occupied = Some(region.id);
         }
 
         self.free.start = aligned_start;
-- 
2.43.0


From e70f32d5788eb5ec7a64226c0788bb5fbad64a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 41/53] fix: slice allocator reports capacity in elements

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index e02025a..b6fccb3 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -307,7 +307,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
-- 
2.43.0


From fc7da596fb6ab9ded1e6a48da6f2abbabf2e03e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 42/53] fix: slice allocator rejects a capacity which overflows

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index b6fccb3..f25cdca 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -317,7 +317,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
+        if matches!(len.checked_add(additional), Some(requested) if requested <= self.cap) {
             return Ok(());
         }
 
-- 
2.43.0


From e6d55849fc4bcf19f2b7918feeb30f7692d54fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 43/53] fix: FixedBytes::with_capacity grants the whole of its
 capacity

---
 crates/musli/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/fixed.rs b/crates/musli/src/fixed.rs
index 4c227c9..7af165b 100644
--- a/crates/musli/src/fixed.rs
+++ b/crates/musli/src/fixed.rs
@@ -36,7 +36,7 @@ impl<const N: usize> FixedBytes<N> {
     #[inline]
     pub fn with_capacity(capacity: usize) -> Self {
         assert!(
-            capacity < N,
+            capacity <= N,
             "Requested capacity {capacity} is larger than {N}"
         );
         Self::new()
-- 
2.43.0


From 7143ea01e813807c9dc38b5113d738df2eb1e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 44/53] fix: zero-sized elements belong to the collection they
 are put in

---
 crates/musli-core/src/alloc/system.rs | 9 ++++-----
 crates/musli-core/src/alloc/vec.rs    | 9 +++++----
 crates/musli/src/alloc/slice.rs       | 2 ++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/musli-core/src/alloc/system.rs b/crates/musli-core/src/alloc/system.rs
index 7b34bbc..ac5afcd 100644
--- a/crates/musli-core/src/alloc/system.rs
+++ b/crates/musli-core/src/alloc/system.rs
@@ -72,11 +72,10 @@ unsafe impl Allocator for System {
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         let mut raw = SystemAlloc::<T>::alloc()?;
 
-        if size_of::<T>() != 0 {
-            // SAFETY: The above ensures the data has been allocated.
-            unsafe {
-                raw.as_mut_ptr().write(value);
-            }
+        // SAFETY: The above ensures the data has been allocated, and a
+        // zero-sized value does not need to be.
+        unsafe {
+            raw.as_mut_ptr().write(value);
         }
 
         Ok(raw)
diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..eda8836 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -244,11 +244,12 @@ where
     pub fn push(&mut self, item: T) -> Result<(), AllocError> {
         if size_of::<T>() != 0 {
             self.buf.resize(self.len, 1)?;
+        }
 
-            // SAFETY: The call to reserve ensures that we have enough capacity.
-            unsafe {
-                self.buf.as_mut_ptr().add(self.len).write(item);
-            }
+        // SAFETY: The call to resize ensures that we have enough capacity, and
+        // zero-sized items do not need any.
+        unsafe {
+            self.buf.as_mut_ptr().add(self.len).write(item);
         }
 
         self.len += 1;
diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index f25cdca..d607d8e 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -182,6 +182,8 @@ unsafe impl<'a> Allocator for &'a Slice<'_> {
     #[inline]
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         if size_of::<T>() == 0 {
+            // The value now belongs to the allocation.
+            forget(value);
             return Ok(SliceAlloc::ZST);
         }
 
-- 
2.43.0


From 621ffde14fca6f7c0d3b6c12be9c87639d69856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 45/53] fix: restoring a traced context restores its path and
 drops the errors of what was abandoned

---
 crates/musli-macros/src/de.rs     |  2 ++
 crates/musli/src/context/trace.rs | 57 ++++++++++++++++++++++++++-----
 2 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index e147603..d0e06f6 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -319,6 +319,8 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
                 if let #result::Ok(output) = #result_var {
                     break 'output output;
                 }
+
+                #context_t::restore(#ctx_var, &#mark_var);
             })
         }
         None => None,
diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 6a66391..e39325d 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -128,6 +128,19 @@ pub trait TraceImpl<A>: self::sealed::Sealed {
 #[non_exhaustive]
 pub struct Trace;
 
+/// A checkpoint in a tracing context.
+#[doc(hidden)]
+pub struct TraceMark {
+    /// The byte position.
+    mark: usize,
+    /// The number of steps in the path.
+    path: usize,
+    /// The number of steps which did not fit in the path.
+    cap: usize,
+    /// The number of errors reported.
+    errors: usize,
+}
+
 impl TraceMode for Trace {
     type Impl<A>
         = WithTraceImpl<A>
@@ -211,8 +224,9 @@ where
         // SAFETY: We've checked that we have exclusive access just above.
         let path = unsafe { &mut (*self.path.get()) };
 
-        if path.push(step).is_err() {
-            self.cap.set(&self.cap.get() + 1);
+        // Once a step has not fit, neither do those inside of it.
+        if self.cap.get() > 0 || path.push(step).is_err() {
+            self.cap.set(self.cap.get() + 1);
         }
     }
 
@@ -262,11 +276,12 @@ impl<A> TraceImpl<A> for WithTraceImpl<A>
 where
     A: Allocator,
 {
-    type Mark = usize;
+    type Mark = TraceMark;
 
     #[inline]
     fn clear(&self) {
         self.mark.set(0);
+        self.cap.set(0);
         let _access = self.access.exclusive();
 
         // SAFETY: We have acquired exclusive access just above.
@@ -283,12 +298,35 @@ where
 
     #[inline]
     fn mark(&self) -> Self::Mark {
-        self.mark.get()
+        let _access = self.access.shared();
+
+        // SAFETY: We have acquired shared access just above.
+        unsafe {
+            TraceMark {
+                mark: self.mark.get(),
+                path: (*self.path.get()).len(),
+                cap: self.cap.get(),
+                errors: (*self.errors.get()).len(),
+            }
+        }
     }
 
     #[inline]
     fn restore(&self, mark: &Self::Mark) {
-        self.mark.set(*mark);
+        self.mark.set(mark.mark);
+        self.cap.set(mark.cap);
+        let _access = self.access.exclusive();
+
+        // SAFETY: We have acquired exclusive access just above.
+        let (path, errors) = unsafe { (&mut *self.path.get(), &mut *self.errors.get()) };
+
+        while path.len() > mark.path {
+            path.pop();
+        }
+
+        while errors.len() > mark.errors {
+            errors.pop();
+        }
     }
 
     #[inline]
@@ -317,7 +355,7 @@ where
         T: fmt::Display,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.mark..self.mark.get(), string);
         }
     }
 
@@ -327,7 +365,7 @@ where
         T: 'static + Send + Sync + fmt::Display + fmt::Debug,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.mark..self.mark.get(), string);
         }
     }
 
@@ -405,8 +443,9 @@ where
     where
         T: fmt::Display,
     {
-        if let Some(string) = self.format_string(alloc, field) {
-            self.push_path(Step::Key(string));
+        match self.format_string(alloc, field) {
+            Some(string) => self.push_path(Step::Key(string)),
+            None => self.cap.set(self.cap.get() + 1),
         }
     }
 
-- 
2.43.0


From 18a67074ec2d8d029f4f3546f78dc8780b39fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 46/53] fix: errors in fields of packed types have the field in
 their path

---
 crates/musli-macros/src/de.rs | 43 ++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index d0e06f6..d86fb80 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1446,28 +1446,62 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
     let type_name = st.name.value;
     let output_var = b.cx.ident("output");
     let field_decoder = b.cx.ident("field_decoder");
+    let value_var = b.cx.ident("value");
 
     let mut assign = Vec::new();
 
+    let static_name_var = b.cx.ident("FIELD_NAME");
+    let static_name_type = st.name.ty();
+
     for f @ Field {
+        name,
         decode_path: (_, decode_path),
         member,
         ..
     } in st.unskipped_fields()
     {
         let field_decoder = &field_decoder;
+        let value_var = &value_var;
+
+        let enter = cx.trace.then(|| {
+            let formatted_tag = st.name.name_format(&static_name_var);
+
+            let (field, enter) = match member {
+                syn::Member::Named(name) => (
+                    syn::Lit::Str(syn::LitStr::new(&name.to_string(), name.span())),
+                    Ident::new("enter_named_field", Span::call_site()),
+                ),
+                syn::Member::Unnamed(index) => (
+                    syn::Lit::Int(syn::LitInt::from(Literal::u32_suffixed(index.index))),
+                    Ident::new("enter_unnamed_field", Span::call_site()),
+                ),
+            };
+
+            quote! {
+                static #static_name_var: #static_name_type = #name;
+                #context_t::#enter(#ctx_var, #field, #formatted_tag);
+            }
+        });
+
+        let leave = cx
+            .trace
+            .then(|| quote!(#context_t::leave_field(#ctx_var);));
 
         if let Some(init) = f.init_default(b) {
             let value: Box<dyn Fn(&syn::Ident, &mut TokenStream)> =
                 Box::new(move |ident: &syn::Ident, tokens: &mut TokenStream| {
                     tokens.extend(quote! {
                         #member: {
+                            #enter
                             let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
 
-                            match #decoder_t::decode_option(#field_decoder)? {
+                            let #value_var = match #decoder_t::decode_option(#field_decoder)? {
                                 #option::Some(#field_decoder) => #decode_path(#field_decoder)?,
                                 #option::None => #init,
-                            }
+                            };
+
+                            #leave
+                            #value_var
                         }
                     })
                 });
@@ -1478,8 +1512,11 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
                 move |ident: &syn::Ident, tokens: &mut TokenStream| {
                     tokens.extend(quote! {
                         #member: {
+                            #enter
                             let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
-                            #decode_path(#field_decoder)?
+                            let #value_var = #decode_path(#field_decoder)?;
+                            #leave
+                            #value_var
                         }
                     })
                 },
-- 
2.43.0


From f1f282683635d2ba0d31d5f56442d8c98acf8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 47/53] fix: errors in elements of arrays have the index in
 their path

---
 crates/musli-core/src/impls/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 82f07dd..86a0945 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -253,8 +253,13 @@ where
         decoder.decode_sequence(|seq| {
             let mut array = crate::internal::FixedVec::new();
 
+            let mut index = 0usize;
+
             while let Some(item) = seq.try_decode_next()? {
+                cx.enter_sequence_index(index);
                 array.try_push(item.decode()?).map_err(cx.map())?;
+                cx.leave_sequence_index();
+                index = index.wrapping_add(1);
             }
 
             if array.len() != N {
-- 
2.43.0


From 909c85f664d84f1075f404721b397b8cc9dd91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 48/53] fix: numeric JSON keys advance the context once

---
 crates/musli/src/json/de/key_signed_visitor.rs   | 3 +++
 crates/musli/src/json/de/key_unsigned_visitor.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crates/musli/src/json/de/key_signed_visitor.rs b/crates/musli/src/json/de/key_signed_visitor.rs
index a14d61e..f13b7f2 100644
--- a/crates/musli/src/json/de/key_signed_visitor.rs
+++ b/crates/musli/src/json/de/key_signed_visitor.rs
@@ -45,6 +45,9 @@ where
             return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
         }
 
+        // NB: The bytes being parsed have already been accounted for when the key
+        // they are part of was read.
+        cx.restore(&start);
         Ok(value)
     }
 }
diff --git a/crates/musli/src/json/de/key_unsigned_visitor.rs b/crates/musli/src/json/de/key_unsigned_visitor.rs
index 9e0c66c..f65bdab 100644
--- a/crates/musli/src/json/de/key_unsigned_visitor.rs
+++ b/crates/musli/src/json/de/key_unsigned_visitor.rs
@@ -44,6 +44,9 @@ where
             return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
         }
 
+        // NB: The bytes being parsed have already been accounted for when the key
+        // they are part of was read.
+        cx.restore(&start);
         Ok(value)
     }
 }
-- 
2.43.0


From f6c98ef46a0df1624b2bd310a2272d2c77c74c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:26 +0000
Subject: [PATCH 49/53] fix: storage maps are complete once their remaining
 entries are taken

---
 crates/musli/src/storage/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index c21af58..ac3f04f 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 use core::marker::PhantomData;
-use core::mem::MaybeUninit;
+use core::mem::{take, MaybeUninit};
 
 use crate::alloc::Vec;
 use crate::de::{
@@ -584,7 +584,7 @@ where
         Ok(LimitedStorageDecoder::with_remaining(
             self.cx,
             self.reader.borrow_mut(),
-            self.remaining,
+            take(&mut self.remaining),
         ))
     }
 }
-- 
2.43.0


From 9d746cbfab83b728f9f97835ae0a9b307d991934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:26 +0000
Subject: [PATCH 50/53] fix: packs in buffered descriptive values are read with
 the options they were written with

---
 crates/musli/src/descriptive/de.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index e1a6966..ab4e51a 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -8,7 +8,6 @@ use crate::de::{
     UnsizedVisitor, VariantDecoder, Visitor,
 };
 use crate::int::continuation as c;
-use crate::options;
 use crate::reader::Limit;
 use crate::storage::de::StorageDecoder;
 use crate::value::{IntoValueDecoder, Value};
@@ -18,8 +17,6 @@ use crate::{Options, Reader};
 use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
-const BUFFER_OPTIONS: Options = options::new().build();
-
 /// A very simple decoder.
 pub struct SelfDecoder<const OPT: Options, R, C, M> {
     cx: C,
@@ -243,7 +240,7 @@ where
     type Allocator = C::Allocator;
     type Mode = M;
     type TryClone = SelfDecoder<OPT, R::TryClone, C, M>;
-    type DecodeBuffer = IntoValueDecoder<BUFFER_OPTIONS, C, C::Allocator, M>;
+    type DecodeBuffer = IntoValueDecoder<OPT, C, C::Allocator, M>;
     type DecodePack = SelfDecoder<OPT, Limit<R>, C, M>;
     type DecodeSome = Self;
     type DecodeSequence = RemainingSelfDecoder<OPT, R, C, M>;
-- 
2.43.0


From e3a9d7ae2c4a8ec78736da7e2a96b02f7792061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:10 +0000
Subject: [PATCH 51/53] fix: wire maps with an odd number of elements are
 refused

---
 crates/musli/src/wire/de.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index e0fbb95..157f1c9 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -132,6 +132,13 @@ where
         mut self,
     ) -> Result<RemainingWireDecoder<OPT, R, C, M>, C::Error> {
         let len = self.decode_sequence_len()?;
+
+        if len % 2 != 0 {
+            return Err(self
+                .cx
+                .message("Expected an even number of elements in a pair sequence"));
+        }
+
         Ok(RemainingWireDecoder::new(self.cx, self.reader, len / 2))
     }
 
-- 
2.43.0


From b35bbf0056e37e6d248d2472e39886d84ef75061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:27 +0000
Subject: [PATCH 52/53] fix: write the right number of fields for variants with
 skip_encoding_if

The hint for the body of a variant was the hint of the enum as a whole, so a
variant where fields may be skipped was written as a map of length 1 or 2
no matter how many fields followed.
---
 crates/musli-macros/src/en.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index 5f3eac9..9691190 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -225,13 +225,13 @@ fn encode_default(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
             let encoders = make_encoders(cx, b, st)?;
 
             let len = length_test(st.unskipped_fields());
-            let (build_hint, hint) = len.build_hint(b);
+            let (build_hint, hint) = len.build_body_hint(b);
 
             encode = quote! {{
+                #(#decls)*
                 #build_hint
 
                 #encoder_t::encode_map_fn(#encoder_var, #hint, move |#encoder_var| {
-                    #(#decls)*
                     #(#encoders)*
                     #result::Ok(())
                 })?
@@ -781,6 +781,23 @@ impl ToTokens for LengthTest {
 }
 
 impl LengthTest {
+    /// Build the hint of a body whose field tests are in scope, which might not
+    /// be the same as the hint of the value the body is a part of.
+    fn build_body_hint(&self, b: &Build<'_>) -> (TokenStream, syn::Ident) {
+        match self.kind {
+            LengthTestKind::Static => self.build_hint(b),
+            LengthTestKind::Dynamic => {
+                let len = &self.expressions;
+                let hint = b.cx.ident("hint");
+                let item = quote! {
+                    let #hint: usize = #len;
+                };
+
+                (item, hint)
+            }
+        }
+    }
+
     fn build_hint(&self, b: &Build<'_>) -> (TokenStream, syn::Ident) {
         let Tokens { map_hint, .. } = b.tokens;
 
-- 
2.43.0


From 64b88bb5c73fdb67d11c7c202d7401b24906766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:27 +0000
Subject: [PATCH 53/53] fix: decode packed bodies which have skipped fields

The skipped fields were left out of the constructor, which did not compile.
---
 crates/musli-macros/src/de.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index d86fb80..34f0b91 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1439,7 +1439,6 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
         context_t,
         decoder_t,
         pack_decoder_t,
-        option,
         ..
     } = b.tokens;
 
@@ -1458,7 +1457,7 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
         decode_path: (_, decode_path),
         member,
         ..
-    } in st.unskipped_fields()
+    } in &st.all_fields
     {
         let field_decoder = &field_decoder;
         let value_var = &value_var;
@@ -1489,21 +1488,8 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
 
         if let Some(init) = f.init_default(b) {
             let value: Box<dyn Fn(&syn::Ident, &mut TokenStream)> =
-                Box::new(move |ident: &syn::Ident, tokens: &mut TokenStream| {
-                    tokens.extend(quote! {
-                        #member: {
-                            #enter
-                            let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
-
-                            let #value_var = match #decoder_t::decode_option(#field_decoder)? {
-                                #option::Some(#field_decoder) => #decode_path(#field_decoder)?,
-                                #option::None => #init,
-                            };
-
-                            #leave
-                            #value_var
-                        }
-                    })
+                Box::new(move |_: &syn::Ident, tokens: &mut TokenStream| {
+                    tokens.extend(quote!(#member: #init))
                 });
 
             assign.push(value);
-- 
2.43.0

