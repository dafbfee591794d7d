From c325441f012ab2222e91f6a510903930e047d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 01/25] fix: scalar_collect exposed uninitialised memory after
 elements were consumed

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0c4c5a8..3ad510e 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -727,7 +727,7 @@ impl<'a, T, I> IntoScalar<T> for I
                 }
                 ret.set_len(self.width() + offset - n);
             } else {
-                ret.set_len(self.len() * self.width());
+                ret.set_len(offset);
             }
         }
         ret
-- 
2.43.0


From 68d6034f0cdd3780eee3544660041c9b7dd3097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 02/25] fix: end() wrote past the vector when a short
 collection was partly consumed

---
 src/iters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 3ad510e..c9cbfad 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -533,9 +533,10 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
                 ret = unsafe { self.load_unchecked(self.scalar_len() - self.width()) };
                 ret = self.default().merge_partitioned(ret, empty_amt);
             } else {
-                for i in self.scalar_pos()..self.scalar_len() {
+                let pos = self.scalar_pos();
+                for i in pos..self.scalar_len() {
                     unsafe {
-                        ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                        ret = ret.replace_unchecked(i - pos + empty_amt, self.load_scalar_unchecked(i));
                     }
                 }
             }
@@ -603,7 +604,7 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
             ret = self.default().merge_partitioned(ret, empty_amt);
         } else {
             for i in offset..self.scalar_len() {
-                ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                ret = ret.replace_unchecked(i - offset + empty_amt, self.load_scalar_unchecked(i));
             }
         }
         ret
-- 
2.43.0


From 6797378e09116bf878c69a6d132b09d9872e528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 03/25] fix: simd_for_each overwrote consumed elements and
 wrote out of bounds after partial consumption

---
 src/iters.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index c9cbfad..2d0ef3f 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -7,6 +7,7 @@
 
 use crate::vecs::{Packable, Packed};
 use crate::core::slice::from_raw_parts;
+use crate::intrin::merge::Merge;
 
 pub trait SIMDObject : Sized {
     type Scalar : Packable;
@@ -552,11 +553,8 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
 impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
     fn simd_for_each<F>(&mut self, mut func: F)
         where F : FnMut(&mut Self::Vector) -> () {
-        let mut lastvec = Self::Vector::default();
-
         while let Some(mut v) = self.next() {
             func(&mut v);
-            lastvec = v;
             let offset = self.scalar_pos() - self.width();
             unsafe { self.data.store_unchecked(v, offset); }
         }
@@ -565,10 +563,11 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
             func(&mut p);
             let width = self.width();
             if self.width() < self.scalar_len() {
-                // We stored a vector in this buffer; overwrite the unused elements
+                // The partial vector overlaps elements which are already
+                // consumed; keep those
                 unsafe {
-                    self.data.store_unchecked(p, offset - n);
-                    self.data.store_unchecked(lastvec, offset - width);
+                    let old = self.data.load_unchecked(offset - n);
+                    self.data.store_unchecked(old.merge_partitioned(p, n), offset - n);
                 }
             } else {
                 // The buffer won't fit one vector; store elementwise
-- 
2.43.0


From 8138552a7598153eae47f8ae7b11bb9fcf4f5dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 04/25] fix: scalar_collect_all returned too few elements and
 wrote out of bounds

---
 src/iters.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 2d0ef3f..acd884d 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -768,10 +768,20 @@ impl<'a, T, I> IntoScalar<T> for I
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
         let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let mut offset = 0;
 
         unsafe {
-            ret.set_len(self.len());
-            self.scalar_fill_all(ret.as_mut_slice());
+            ret.set_len((self.len() + 1) * self.width());
+            while let Some(vec) = self.next() {
+                vec.store(&mut ret, offset);
+                offset += self.width();
+            }
+
+            if let Some((vec, _)) = self.end() {
+                vec.store(&mut ret, offset);
+                offset += self.width();
+            }
+            ret.set_len(offset);
         }
         ret
     }
-- 
2.43.0


From e5fff4cb55c52ef33398b336eebbaed90c4b0eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 05/25] fix: scalar_fill and scalar_fill_all wrote past the end
 of short buffers

---
 src/iters.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index acd884d..5ebad1c 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -739,7 +739,7 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut lastvec = Self::Vector::default();
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
             lastvec = vec;
         }
@@ -747,10 +747,8 @@ impl<'a, T, I> IntoScalar<T> for I
         if let Some((p, n)) = self.end() {
             if offset > 0 {
                 // We stored a vector in this buffer; overwrite the unused elements
-                unsafe {
-                    p.store_unchecked(fill, offset - n);
-                    lastvec.store_unchecked(fill, offset - self.width());
-                }
+                p.store(fill, offset - n);
+                lastvec.store(fill, offset - self.width());
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
@@ -791,12 +789,12 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut offset = 0;
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
         }
 
         if let Some((vec, _)) = self.end() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
         }
 
         fill
-- 
2.43.0


From 39ad6af37755592c6da81981dc7b35109c1f9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 06/25] fix: scalar_collect wrote out of bounds when an
 iterator is longer than its len()

---
 src/iters.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 5ebad1c..0cf6de1 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -709,7 +709,7 @@ impl<'a, T, I> IntoScalar<T> for I
         unsafe {
             ret.set_len((self.len() + 1) * self.width());
             while let Some(vec) = self.next() {
-                vec.store_unchecked(&mut ret, offset);
+                vec.store(&mut ret, offset);
                 offset += self.width();
                 lastvec = vec;
             }
@@ -717,8 +717,8 @@ impl<'a, T, I> IntoScalar<T> for I
             if let Some((p, n)) = self.end() {
                 if offset > 0 {
                     // We stored a vector in this buffer; overwrite the unused elements
-                    p.store_unchecked(&mut ret, offset - n);
-                    lastvec.store_unchecked(&mut ret, offset - self.width());
+                    p.store(&mut ret, offset - n);
+                    lastvec.store(&mut ret, offset - self.width());
                 } else {
                     // The buffer won't fit one vector; store elementwise
                     for i in 0..(self.width() - n) {
-- 
2.43.0


From a7abcb8ad903b82942e6e0221c9fa9a4b73850c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 07/25] fix: SIMDIter::next read out of bounds when the
 position overflowed

---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0cf6de1..e51548c 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -466,7 +466,7 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.position <= self.scalar_len() && self.scalar_len() - self.position >= self.width() {
             let ret = unsafe { self.load_unchecked(self.position) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
-- 
2.43.0


From 86a7eedefaee27a9fbf57d38de43d6e01437a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 08/25] fix: mapping iterators reported vectors as scalars and
 lost their place in width-changing maps

---
 src/iters.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index e51548c..9209410 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -611,6 +611,13 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
 
 }
 
+/// Convert a count of lanes of vectors with `from` lanes to the corresponding
+/// count of lanes of vectors with `to` lanes.
+#[inline(always)]
+pub(crate) fn rescale(amount: usize, from: usize, to: usize) -> usize {
+    if to >= from { amount * (to / from) } else { amount / (from / to) }
+}
+
 impl<A, B, I, F> Iterator for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     type Item = A;
@@ -643,7 +650,7 @@ impl<A, B, I, F> SIMDSized for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        rescale(self.iter.scalar_len(), I::Vector::WIDTH, A::WIDTH)
     }
 }
 
@@ -651,12 +658,17 @@ impl<A, B, I, F> SIMDIterable for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_pos(&self) -> usize {
-        self.iter.scalar_pos()
+        rescale(self.iter.scalar_pos(), I::Vector::WIDTH, A::WIDTH)
     }
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.iter.advance(amount);
+        self.iter.advance(rescale(amount, A::WIDTH, I::Vector::WIDTH));
+    }
+
+    #[inline(always)]
+    fn finalize(&mut self) {
+        self.iter.finalize();
     }
 
     #[inline(always)]
-- 
2.43.0


From bb402eddf6677bd8b95af4f12f436160003d3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 09/25] fix: maps to vectors of another size miscounted the
 spare lanes of the tail

---
 src/iters.rs | 2 +-
 src/zip.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 9209410..a253926 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -683,7 +683,7 @@ impl<'a, A, B, I, F> SIMDIterator for SIMDMap<I, F>
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * I::Scalar::SIZE / Self::Scalar::SIZE;
+        let nr = rescale(n, I::Vector::WIDTH, A::WIDTH);
         Some(((self.func)(v), nr))
     }
 }
diff --git a/src/zip.rs b/src/zip.rs
index 960e2c4..38b284d 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -5,7 +5,7 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
-use crate::iters::{SIMDIterator, SIMDIterable, SIMDObject, UnsafeIterator, SIMDSized};
+use crate::iters::{SIMDIterator, SIMDIterable, SIMDObject, UnsafeIterator, SIMDSized, rescale};
 use crate::vecs::{Packed, Packable};
 
 /// A macro which takes a number n and an expression, and returns a tuple
@@ -365,7 +365,7 @@ where I : SIMDZippedIterator, F : FnMut(I::Vectors) -> A, A : Packed {
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         let (v, n) = self.iter.end()?;
-        let nr = n * self.iter.size() / self.size();
+        let nr = rescale(n, self.iter.width(), A::WIDTH);
         Some(((self.func)(v), nr))
     }
 }
-- 
2.43.0


From ef949f03f090a9d644f8d02bb0f90733033c08ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 10/25] fix: zipped iterators reported vectors as scalars and
 could not be finalized

---
 src/zip.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/zip.rs b/src/zip.rs
index 38b284d..b6bb056 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -289,6 +289,11 @@ macro_rules! impl_iter_zip {
                 self.iters.0.scalar_pos()
             }
 
+            #[inline(always)]
+            fn scalar_len(&self) -> usize {
+                self.iters.0.scalar_len()
+            }
+
             #[inline(always)]
             fn advance(&mut self, amount: usize) {
                 self.iters.0.advance(amount);
@@ -331,7 +336,7 @@ impl<I, F, A> SIMDSized for SIMDZipMap<I, F>
     /// Return the length of this iterator, measured in scalars.
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.scalar_len()
+        rescale(self.iter.scalar_len(), self.iter.width(), A::WIDTH)
     }
 
     /// Return the length of this iterator, measured in vectors.
@@ -345,14 +350,20 @@ impl<I, F, A> SIMDIterable for SIMDZipMap<I, F>
     where I : SIMDZippedIterator, F : FnMut(I::Vectors) -> A, A : Packed {
     #[inline(always)]
     fn scalar_pos(&self) -> usize {
-        self.iter.scalar_pos()
+        rescale(self.iter.scalar_pos(), self.iter.width(), A::WIDTH)
     }
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
+        let amount = rescale(amount, A::WIDTH, self.iter.width());
         self.iter.advance(amount)
     }
 
+    #[inline(always)]
+    fn finalize(&mut self) {
+        self.iter.finalize();
+    }
+
     #[inline(always)]
     fn default(&self) -> Self::Vector {
         // TODO: Is there a more sane return value (without invoking the closure)?
-- 
2.43.0


From 99655d5ffe08a63ea06e6e110b16cba9273d3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 11/25] fix: zip accepted collections of different lengths and
 read out of bounds

---
 src/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zip.rs b/src/zip.rs
index b6bb056..617cff7 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -225,7 +225,7 @@ macro_rules! impl_iter_zip {
         impl<$($a),*> IntoSIMDZip for ($($a),*) where $($a : SIMDIterator + UnsafeIterator),* {
             #[inline(always)]
             fn zip(self) -> Zip<Self> {
-                if $(self.0.len() != self.$n.len())||* {
+                if $(self.0.scalar_len() != self.$n.scalar_len() || self.0.width() != self.$n.width())||* {
                     panic!("You can only zip iterators of the same length.");
                 }
                 Zip { iters: self }
-- 
2.43.0


From 281c6dcce6606ddac9c342ec8cbd0affcb3b02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 12/25] fix: SIMDAdapter lost, reversed and overran elements

---
 src/iters.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index a253926..c46fd6e 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -240,7 +240,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.iter.len() >= self.width() {
             // Our iterator has at least one vector's worth of elements, so load
             // them all into our vector
             for offset in 0..self.width() {
@@ -248,8 +248,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
                     self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
             }
-            let width = self.width(); // Appease borrow checker
-            self.advance(width);
+            self.position += self.width();
             Some(self.scratch)
         } else {
             None
@@ -259,19 +258,18 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
-        if self.position < self.scalar_len() {
-            // This is the last vector we can load, so we should load it
-            // backwards and use the default vector to overwrite blank spots
+        if self.iter.len() > 0 {
+            // This is the last vector we can load, so we should right-align it
+            // and use the default vector to fill the leading blank spots
             self.scratch = self.default;
-            let mut offset = self.width() - 1;
-            while let Some(item) = self.iter.next() {
+            let empty_amt = self.width().saturating_sub(self.iter.len());
+            for offset in empty_amt..self.width() {
                 unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, item);
+                    self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
-                offset -= 1;
             }
-            self.finalize();
-            Some((self.scratch, offset))
+            self.position += self.width() - empty_amt;
+            Some((self.scratch, empty_amt))
         } else {
             None
         }
@@ -281,14 +279,14 @@ impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.len() / self.width()
+        self.scalar_len() / self.width()
     }
 }
 
 impl<I, V> SIMDSized for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.position + self.iter.len()
     }
 }
 
@@ -300,7 +298,11 @@ impl<I, V> SIMDIterable for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        let amount = amount.min(self.iter.len());
+        if amount > 0 {
+            self.iter.nth(amount - 1);
+        }
+        self.position += amount;
     }
 
     #[inline(always)]
-- 
2.43.0


From 2b46d34836e35c57ef57608a75bed829142e0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 13/25] fix: strided iterators lost the last complete vector
 and read out of bounds past the end

---
 src/stride.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/stride.rs b/src/stride.rs
index 4a27b95..48d7f9f 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,13 +32,9 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + self.stride * self.width() < self.iter.scalar_len() {
-            let mut ret = <Self as SIMDObject>::Vector::default();
-            for i in 0..self.width() {
-                ret = ret.replace(i, unsafe {
-                    self.iter.load_scalar_unchecked(self.pos + self.stride * i)
-                });
-            }
+        let pos = self.scalar_pos();
+        if pos <= self.scalar_len() && self.scalar_len() - pos >= self.width() {
+            let ret = unsafe { self.load_unchecked(pos) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
             Some(ret)
-- 
2.43.0


From cd9b00e8603df7fb649e5c267cf2542ec1d729b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 14/25] fix: loads from strided iterators wrapped around at
 huge offsets

---
 src/stride.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stride.rs b/src/stride.rs
index 48d7f9f..0020305 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -289,6 +289,7 @@ impl<'a, A> SIMDObject for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn load(&self, offset: usize) -> Self::Vector {
+        assert!(offset < self.iter.scalar_len());
         assert!(self.base + self.stride * (offset + (self.width() - 1)) < self.iter.scalar_len());
         unsafe { self.load_unchecked(offset) }
     }
@@ -306,6 +307,7 @@ impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn load_scalar(&self, offset: usize) -> Self::Scalar {
+        assert!(offset < self.iter.scalar_len());
         self.iter.load_scalar(self.base + offset * self.stride)
     }
 
-- 
2.43.0


From 35b84e4dfa6df3f0c98074b39c865f51a2f97d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 15/25] fix: 256-bit byte destride_two returned the even lanes
 twice

---
 src/arch/x86/intrin/destride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/destride.rs b/src/arch/x86/intrin/destride.rs
index 8715278..0bfdc59 100644
--- a/src/arch/x86/intrin/destride.rs
+++ b/src/arch/x86/intrin/destride.rs
@@ -48,7 +48,7 @@ impl Destride for u8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_u8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_u8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_u8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_u8s();
             (aa.merge_halves(bb), c)
         }
     }
@@ -108,7 +108,7 @@ impl Destride for i8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_i8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_i8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_i8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_i8s();
             (aa.merge_halves(bb), c)
         }
     }
-- 
2.43.0


From cfce4fcba9f7fbeafddf5b7e0b45ff76490c21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 16/25] fix: narrowing 64-bit to 32-bit unsigned lanes clamped
 to the signed maximum

---
 src/arch/x86/intrin/downcast.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 55c4686..7916b05 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -52,9 +52,9 @@ impl Downcast<u32x4> for u64x2 {
     fn saturating_downcast(self, other: Self) -> u32x4 {
         fallback!();
         u32x4::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32)
+                   self.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32)
     }
 }
 
@@ -330,13 +330,13 @@ impl Downcast<u32x8> for u64x4 {
     fn saturating_downcast(self, other: Self) -> u32x8 {
         fallback!();
         u32x8::new(self.extract(0).min(0xFFFFFFFF) as u32,
-                   self.extract(1).min(0x7FFFFFFF) as u32,
+                   self.extract(1).min(0xFFFFFFFF) as u32,
                    self.extract(2).min(0xFFFFFFFF) as u32,
-                   self.extract(3).min(0x7FFFFFFF) as u32,
-                   other.extract(0).min(0x7FFFFFFF) as u32,
-                   other.extract(1).min(0x7FFFFFFF) as u32,
-                   other.extract(2).min(0x7FFFFFFF) as u32,
-                   other.extract(3).min(0x7FFFFFFF) as u32)
+                   self.extract(3).min(0xFFFFFFFF) as u32,
+                   other.extract(0).min(0xFFFFFFFF) as u32,
+                   other.extract(1).min(0xFFFFFFFF) as u32,
+                   other.extract(2).min(0xFFFFFFFF) as u32,
+                   other.extract(3).min(0xFFFFFFFF) as u32)
     }
 }
 
-- 
2.43.0


From 17dae30ebcd6284a465fed3c55479912dd10778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 17/25] fix: narrowing unsigned lanes treated large values as
 negative

---
 src/arch/x86/intrin/downcast.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index 7916b05..b86e12b 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -9,6 +9,7 @@ use crate::arch::current::vecs::*;
 use crate::vecs::*;
 use crate::vektor::x86_64::*;
 use crate::vektor::x86::*;
+use crate::intrin::cmp::Cmp;
 use crate::intrin::downcast::*;
 use crate::intrin::transmute::*;
 use crate::core::mem::transmute;
@@ -105,7 +106,8 @@ impl Downcast<u16x8> for u32x4 {
     #[cfg(target_feature = "sse4.1")]
     fn saturating_downcast(self, other: Self) -> u16x8 {
         optimized!();
-        unsafe { transmute(_mm_packus_epi32(transmute(self), transmute(other))) }
+        let max = Self::splat(0xFFFF);
+        unsafe { transmute(_mm_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))) }
     }
 
     #[inline(always)]
@@ -128,7 +130,8 @@ impl Downcast<u8x16> for u16x8 {
     #[cfg(target_feature = "sse2")]
     fn saturating_downcast(self, other: Self) -> u8x16 {
         optimized!();
-        unsafe { _mm_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        let max = Self::splat(0xFF);
+        unsafe { _mm_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
@@ -237,7 +240,8 @@ impl Downcast<u16x16> for u32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
-        unsafe { transmute(_mm256_packus_epi32(transmute(self), transmute(other))) }
+        let max = Self::splat(0xFFFF);
+        unsafe { transmute(_mm256_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))) }
     }
 
     #[inline(always)]
@@ -268,7 +272,8 @@ impl Downcast<u8x32> for u16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
-        unsafe { _mm256_packus_epi16(self.be_i16s(), other.be_i16s()).be_u8s() }
+        let max = Self::splat(0xFF);
+        unsafe { _mm256_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s()).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From bb285c3d13572772ecabd659ab8dfce4ae8f4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 18/25] fix: 256-bit narrowing interleaved its operands

---
 src/arch/x86/intrin/downcast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arch/x86/intrin/downcast.rs b/src/arch/x86/intrin/downcast.rs
index b86e12b..eb6f8b5 100644
--- a/src/arch/x86/intrin/downcast.rs
+++ b/src/arch/x86/intrin/downcast.rs
@@ -162,7 +162,7 @@ impl Downcast<i16x16> for i32x8 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i16x16 {
         optimized!();
-        unsafe { _mm256_packs_epi32(self, other) }
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi32(self, other).be_i64s(), 0xD8).be_i16s() }
     }
 
     #[inline(always)]
@@ -193,7 +193,7 @@ impl Downcast<i8x32> for i16x16 {
     #[cfg(target_feature = "avx2")]
     fn saturating_downcast(self, other: Self) -> i8x32 {
         optimized!();
-        unsafe { _mm256_packs_epi16(self.be_i16s(), other) }
+        unsafe { _mm256_permute4x64_epi64(_mm256_packs_epi16(self.be_i16s(), other).be_i64s(), 0xD8).be_i8s() }
     }
 
     #[inline(always)]
@@ -241,7 +241,7 @@ impl Downcast<u16x16> for u32x8 {
     fn saturating_downcast(self, other: Self) -> u16x16 {
         optimized!();
         let max = Self::splat(0xFFFF);
-        unsafe { transmute(_mm256_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))) }
+        unsafe { transmute(_mm256_permute4x64_epi64(transmute(_mm256_packus_epi32(transmute(self.min(max)), transmute(other.min(max)))), 0xD8)) }
     }
 
     #[inline(always)]
@@ -273,7 +273,7 @@ impl Downcast<u8x32> for u16x16 {
     fn saturating_downcast(self, other: Self) -> u8x32 {
         optimized!();
         let max = Self::splat(0xFF);
-        unsafe { _mm256_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s()).be_u8s() }
+        unsafe { _mm256_permute4x64_epi64(_mm256_packus_epi16(self.min(max).be_i16s(), other.min(max).be_i16s()).be_i64s(), 0xD8).be_u8s() }
     }
 
     #[inline(always)]
-- 
2.43.0


From dfec50513a70fe1e0b95e7b6319ded279a6a8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 19/25] fix: widening sum of signed bytes wrapped to eight bits

---
 src/arch/x86/intrin/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/sum.rs b/src/arch/x86/intrin/sum.rs
index 3b408de..ad0127c 100644
--- a/src/arch/x86/intrin/sum.rs
+++ b/src/arch/x86/intrin/sum.rs
@@ -45,7 +45,7 @@ impl UpcastSum for i8x16 {
         let pos = unsafe { _mm_sad_epu8(self.max(Self::splat(0)).be_u8s(), u8x16::splat(0)).be_u16s() };
         let neg = unsafe { _mm_sad_epu8(self.min(Self::splat(0)).abs().be_u8s(), u8x16::splat(0)).be_u16s() };
         pos.extract(0).overflowing_sub(neg.extract(0)).0
-            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0 as i16 as i64
     }
 }
 
@@ -73,7 +73,7 @@ impl UpcastSum for i8x32 {
         pos.extract(0).overflowing_sub(neg.extract(0)).0
             .overflowing_add(pos.extract(4).overflowing_sub(neg.extract(4)).0).0
             .overflowing_add(pos.extract(8).overflowing_sub(neg.extract(8)).0).0
-            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i8 as i64
+            .overflowing_add(pos.extract(12).overflowing_sub(neg.extract(12)).0).0 as i16 as i64
     }
 }
 
-- 
2.43.0


From d5f2a50449253452bb5047b75ef4926f3d19a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 20/25] fix: merge_partitioned refused the offset equal to the
 width without SIMD blends

---
 src/intrin/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intrin/merge.rs b/src/intrin/merge.rs
index 29ba3f1..ab45726 100644
--- a/src/intrin/merge.rs
+++ b/src/intrin/merge.rs
@@ -71,7 +71,7 @@ macro_rules! impl_packed_merge {
             #[inline(always)]
             fn merge_partitioned(&self, other: Self, offset: usize) -> Self {
                 fallback!();
-                assert!(offset < Self::WIDTH);
+                assert!(offset <= Self::WIDTH);
                 let mut ret = self.clone();
                 for i in offset..Self::WIDTH {
                     unsafe {
-- 
2.43.0


From 13824ec3b7b746defb9b8d744b722bada8d5400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 21/25] fix: stride_zip lost and padded pairs when they did not
 fill complete vectors

---
 src/stride_zip.rs | 54 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index eed06d3..87570f7 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -5,7 +5,6 @@ use crate::zip::{SIMDZippedIterable, SIMDZippedIterator, SIMDZippedObject};
 
 pub struct StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     base: usize,
-    peek: Option<T::Vector>,
     iter: T
 }
 
@@ -20,7 +19,6 @@ impl<T> IntoStrideZip for T where T : SIMDIterator, T::Vector : Destride {
     fn stride_zip(self) -> StrideZip<Self> {
         StrideZip {
             base: self.scalar_pos(),
-            peek: None,
             iter: self
         }
     }
@@ -46,7 +44,7 @@ impl<T> SIMDZippedObject for StrideZip<T> where T : SIMDIterator, T::Vector : De
 impl<T> ExactSizeIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.len() / 2
+        self.scalar_len() / self.width()
     }
 }
 
@@ -56,14 +54,9 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
         (self.iter.scalar_pos() - self.base) / 2
     }
 
-    #[inline(always)]
-    fn vector_pos(&self) -> usize {
-        (self.iter.vector_pos() - (self.base / self.width())) / 2
-    }
-
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.scalar_len() / 2
+        self.iter.scalar_len().saturating_sub(self.base) / 2
     }
 
     #[inline(always)]
@@ -81,32 +74,37 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     type Item = <Self as SIMDZippedObject>::Vectors;
     
     fn next(&mut self) -> Option<Self::Item> {
-        let first = self.iter.next()?;
-        let second = self.iter.next();
-        if let Some(second) = second {
-            Some(first.destride_two(second))
-        } else {
-            self.peek = Some(first);
-            None
+        // Only consume the iterator if it holds two more complete vectors
+        if self.scalar_pos() + self.width() > self.scalar_len() {
+            return None;
         }
+        let first = self.iter.next()?;
+        let second = self.iter.next()?;
+        Some(first.destride_two(second))
     }
 }
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
+        let pairs = self.scalar_len().saturating_sub(self.scalar_pos());
+        if pairs == 0 {
+            return None;
+        }
+        let width = self.width();
         let first = self.iter.next();
-        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
-        if let Some(first) = first {
-            Some((first.destride_two(end), (self.width() + n) / 2))
-        } else {
-            if let Some(v) = self.peek {
-                self.peek = None;
-                Some((v.destride_two(end), (self.width() + n) / 2))
-            } else if n > 0 {
-                Some((end.destride_two(self.iter.default()), n / 2))
-            } else {
-                None
-            }
+        let (last, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
+        // The elements of `first` precede those of `last`, which are right-aligned
+        let elem = |i: usize| match first {
+            Some(first) if i < width => first.extract(i),
+            Some(_) => last.extract(n + i - width),
+            None => last.extract(n + i),
+        };
+        let mut even = self.iter.default();
+        let mut odd = self.iter.default();
+        for i in 0..pairs {
+            even = even.replace(width - pairs + i, elem(2 * i));
+            odd = odd.replace(width - pairs + i, elem(2 * i + 1));
         }
+        Some(((even, odd), width - pairs))
     }
 }
-- 
2.43.0


From 87ed6bccb7dcc0894166c0af027e99f0c39ae83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 22/25] fix: partition_mask read out of bounds at offsets
 beyond the width

---
 scripts/vec_patterns_gen.py  |  2 +-
 src/arch/x86/vec_patterns.rs | 60 ++++++++++++++++++------------------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/scripts/vec_patterns_gen.py b/scripts/vec_patterns_gen.py
index 226e4db..1069844 100644
--- a/scripts/vec_patterns_gen.py
+++ b/scripts/vec_patterns_gen.py
@@ -89,7 +89,7 @@ def generate_vec_patterns(arch, headers, els, vecs, lens, feats, blends, elsz, m
             fprint(f"""
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {{
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe {{ transmute(&PART_MASK[..]) }}, 64 / Self::Scalar::SIZE - off)
             }}""",)
diff --git a/src/arch/x86/vec_patterns.rs b/src/arch/x86/vec_patterns.rs
index d5221cc..86f22a1 100644
--- a/src/arch/x86/vec_patterns.rs
+++ b/src/arch/x86/vec_patterns.rs
@@ -47,7 +47,7 @@ impl Pattern for u8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -160,7 +160,7 @@ impl Pattern for u8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -241,7 +241,7 @@ impl Pattern for u8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -306,7 +306,7 @@ impl Pattern for i8x64 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -419,7 +419,7 @@ impl Pattern for i8x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -500,7 +500,7 @@ impl Pattern for i8x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -565,7 +565,7 @@ impl Pattern for u16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -646,7 +646,7 @@ impl Pattern for u16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -711,7 +711,7 @@ impl Pattern for u16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -768,7 +768,7 @@ impl Pattern for i16x32 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -849,7 +849,7 @@ impl Pattern for i16x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -914,7 +914,7 @@ impl Pattern for i16x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -971,7 +971,7 @@ impl Pattern for u32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1036,7 +1036,7 @@ impl Pattern for u32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1093,7 +1093,7 @@ impl Pattern for u32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1146,7 +1146,7 @@ impl Pattern for i32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1211,7 +1211,7 @@ impl Pattern for i32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1268,7 +1268,7 @@ impl Pattern for i32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1321,7 +1321,7 @@ impl Pattern for f32x16 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1386,7 +1386,7 @@ impl Pattern for f32x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1443,7 +1443,7 @@ impl Pattern for f32x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1496,7 +1496,7 @@ impl Pattern for u64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1553,7 +1553,7 @@ impl Pattern for u64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1606,7 +1606,7 @@ impl Pattern for u64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1657,7 +1657,7 @@ impl Pattern for i64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1714,7 +1714,7 @@ impl Pattern for i64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1767,7 +1767,7 @@ impl Pattern for i64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1818,7 +1818,7 @@ impl Pattern for f64x8 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1875,7 +1875,7 @@ impl Pattern for f64x4 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
@@ -1928,7 +1928,7 @@ impl Pattern for f64x2 {
 
             #[inline(always)]
             fn partition_mask(off: usize) -> Self {
-                debug_assert!(off <= Self::WIDTH);
+                assert!(off <= Self::WIDTH);
                 debug_assert!(off * Self::Scalar::SIZE <= 64);
                 Self::load(unsafe { transmute(&PART_MASK[..]) }, 64 / Self::Scalar::SIZE - off)
             }
-- 
2.43.0


From 0d49fe9d0c762c0fa0b199690c2d177c9715ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:21 +0000
Subject: [PATCH 23/25] fix: len() counted vectors already taken and
 size_hint() gave no bounds

ExactSizeIterator::len must be the number of items still to come; with the
default size_hint of (0, None) the standard adaptors (ExactSizeIterator
methods of enumerate, skip, zip, collect's reservation) were inconsistent
with it.
---
 src/iters.rs      | 19 +++++++++++++++++--
 src/stride.rs     |  7 ++++++-
 src/stride_zip.rs |  7 ++++++-
 src/zip.rs        | 10 ++++++++++
 4 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index c46fd6e..cceb434 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -254,6 +254,11 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
@@ -279,7 +284,7 @@ impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.scalar_len() / self.width()
+        self.scalar_len().saturating_sub(self.scalar_pos()) / self.width()
     }
 }
 
@@ -459,7 +464,7 @@ impl<A> SIMDObject for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::S
 impl<A> ExactSizeIterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Scalar : Packable {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.data.scalar_len() / self.width()
+        self.scalar_len().saturating_sub(self.scalar_pos()) / self.width()
     }
 }
 
@@ -477,6 +482,11 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<A> SIMDArray for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Scalar : Packable {
@@ -628,6 +638,11 @@ impl<A, B, I, F> Iterator for SIMDMap<I, F>
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(&mut self.func)
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<I, F> ExactSizeIterator for SIMDMap<I, F> where Self : Iterator, I : SIMDIterable {
diff --git a/src/stride.rs b/src/stride.rs
index 0020305..0256b91 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -42,12 +42,17 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
             None
         }
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, A> ExactSizeIterator for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.vector_len() / self.stride
+        self.scalar_len().saturating_sub(self.scalar_pos()) / self.width()
     }
 }
 
diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index 87570f7..1df6447 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -44,7 +44,7 @@ impl<T> SIMDZippedObject for StrideZip<T> where T : SIMDIterator, T::Vector : De
 impl<T> ExactSizeIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.scalar_len() / self.width()
+        self.scalar_len().saturating_sub(self.scalar_pos()) / self.width()
     }
 }
 
@@ -82,6 +82,11 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
         let second = self.iter.next()?;
         Some(first.destride_two(second))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
diff --git a/src/zip.rs b/src/zip.rs
index 617cff7..057cc1d 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -251,6 +251,11 @@ macro_rules! impl_iter_zip {
                     (v, $(self.iters.$n.next_unchecked(pos)),*)
                 })
             }
+
+            #[inline(always)]
+            fn size_hint(&self) -> (usize, Option<usize>) {
+                (self.len(), Some(self.len()))
+            }
         }
 
         impl<$($a),*> SIMDZippedObject for Zip<($($a),*)>
@@ -315,6 +320,11 @@ impl<I, F, A> Iterator for SIMDZipMap<I, F>
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(&mut self.func)
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<I, F, A> ExactSizeIterator for SIMDZipMap<I, F>
-- 
2.43.0


From 3e99669016c0c219e42aa4b9b0ed2ab8590aff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:58 +0000
Subject: [PATCH 24/25] fix: f64x4 rounding needs AVX, not SSE4.1

---
 src/arch/x86/intrin/round.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/x86/intrin/round.rs b/src/arch/x86/intrin/round.rs
index 7cff34a..52ea60b 100644
--- a/src/arch/x86/intrin/round.rs
+++ b/src/arch/x86/intrin/round.rs
@@ -40,7 +40,7 @@ rust_fallback_impl! {
 }
 
 rust_fallback_impl! {
-    impl Round for f64x4 where "sse4.1" {
+    impl Round for f64x4 where "avx" {
         round => _mm256_round_pd(_MM_FROUND_TO_NEAREST_INT), [0, 1, 2, 3];
         ceil => _mm256_ceil_pd(), [0, 1, 2, 3];
         floor => _mm256_floor_pd(), [0, 1, 2, 3];
-- 
2.43.0


From e7e936a9338fd355a226e1be7adb302a9aa5a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:58 +0000
Subject: [PATCH 25/25] fix: minimum and maximum of u32x8 and i32x8 need AVX2,
 not AVX

---
 src/arch/x86/intrin/cmp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/cmp.rs b/src/arch/x86/intrin/cmp.rs
index 7b97db8..e3dbbf0 100644
--- a/src/arch/x86/intrin/cmp.rs
+++ b/src/arch/x86/intrin/cmp.rs
@@ -100,14 +100,14 @@ rust_fallback_impl_binary! {
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for u32x8 where "avx" {
+    impl Cmp for u32x8 where "avx2" {
         min => _mm256_min_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epu32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
 }
 
 rust_fallback_impl_binary! {
-    impl Cmp for i32x8 where "avx" {
+    impl Cmp for i32x8 where "avx2" {
         min => _mm256_min_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
         max => _mm256_max_epi32(), [0, 1, 2, 3, 4, 5, 6, 7];
     }
-- 
2.43.0

