From c0575cddaf028241ee1f97c3b1e47b7360397a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 1/4] fix: keep max when inserting a new minimum into a
 non-monad tree

Inserting a key below the current minimum of a tree with two or more
elements replaced the stored maximum with the previous minimum, so
max_val/successor/predecessor/iteration returned wrong results.
---
 src/tree.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 34f9c07..b9042f2 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -522,12 +522,8 @@ where
                 return None;
             }
             (Ordering::Less, Some(data)) => {
+                // The previous `min` is strictly less than `max`, so it always belongs in the subtrees
                 let (k, v) = replace(&mut self.min, (k, v));
-                let (k, v) = match data.max.0.cmp(&k) {
-                    Ordering::Equal => return Some(replace(&mut data.max, (k, v))),
-                    Ordering::Greater => replace(&mut data.max, (k, v)),
-                    Ordering::Less => (k, v),
-                };
 
                 (k, v, data)
             }
-- 
2.43.0


From f442f5832c095012a0dae943e1f2597722dafb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 2/4] fix: index signed keys narrower than usize without sign
 extension

wrapping_sub on the signed type followed by 'as usize' sign-extends, so
every non-negative i8/i16/i32 mapped to an index far beyond its
cardinality and ArrayTreeCollection panicked on it.
---
 src/key.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index 3d08078..c32ffe3 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -288,7 +288,7 @@ impl SizedVebKey for i32 {
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -345,7 +345,7 @@ impl SizedVebKey for i16 {
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
@@ -390,7 +390,7 @@ impl SizedVebKey for i8 {
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
-        self.wrapping_sub(Self::MIN) as usize
+        self.abs_diff(Self::MIN) as usize
     }
 }
 
-- 
2.43.0


From 7cb0b22e4180cb90e6f18b4b6ea0d0069f89c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:35 +0000
Subject: [PATCH 3/4] fix: ByteMap::remove_key panics on a key without a tree
 in every build

---
 src/bitset/map/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitset/map/mod.rs b/src/bitset/map/mod.rs
index 34f976f..e959938 100644
--- a/src/bitset/map/mod.rs
+++ b/src/bitset/map/mod.rs
@@ -73,7 +73,7 @@ impl<L: list::TreeList> TreeCollection for ByteMap<L> {
         R: FnOnce(Self::Tree) -> RemoveResult<Self::Tree>,
     {
         let k = *h.borrow();
-        debug_assert!(self.set.find(k).is_some());
+        assert!(self.set.find(k).is_some());
         let i = self.set.count_below(k);
 
         match self.list.remove_key(i, r) {
-- 
2.43.0


From d0d670149b6fd8347161b9a7a39faea0c6857760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:06 +0000
Subject: [PATCH 4/4] fix: SizedVebKey::CARDINALITY counts the keys, as
 Cardinality does

---
 src/key.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/key.rs b/src/key.rs
index c32ffe3..3a4dbbd 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -257,7 +257,7 @@ impl CloneVebKeyRef for u32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for u32 {
-    const CARDINALITY: usize = u32::MAX as usize;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -284,7 +284,7 @@ impl CloneVebKeyRef for i32 {}
     target_pointer_width = "32"
 ))]
 impl SizedVebKey for i32 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u32::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U32);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -313,7 +313,7 @@ impl CloneVebKeyRef for u16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for u16 {
-    const CARDINALITY: usize = u16::MAX as usize;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -341,7 +341,7 @@ impl CloneVebKeyRef for i16 {}
     target_pointer_width = "16"
 ))]
 impl SizedVebKey for i16 {
-    const CARDINALITY: usize = usize::MAX;
+    const CARDINALITY: usize = (u16::MAX as usize).saturating_add(1);
     type Cardinality = op!(U1 << U16);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -364,7 +364,7 @@ impl VebKey for u8 {
 }
 impl CloneVebKeyRef for u8 {}
 impl SizedVebKey for u8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = u8::MAX as usize + 1;
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -386,7 +386,7 @@ impl VebKey for i8 {
 }
 impl CloneVebKeyRef for i8 {}
 impl SizedVebKey for i8 {
-    const CARDINALITY: usize = u8::MAX as usize;
+    const CARDINALITY: usize = u8::MAX as usize + 1;
     type Cardinality = op!(U1 << U8);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -455,7 +455,7 @@ impl VebKey for U4 {
 }
 impl CloneVebKeyRef for U4 {}
 impl SizedVebKey for U4 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U4);
     #[inline(always)]
     fn index(&self) -> usize {
@@ -530,7 +530,7 @@ impl VebKey for U2 {
 }
 impl CloneVebKeyRef for U2 {}
 impl SizedVebKey for U2 {
-    const CARDINALITY: usize = Self::MAX as usize;
+    const CARDINALITY: usize = Self::MAX as usize + 1;
     type Cardinality = op!(U1 << _U2);
     #[inline(always)]
     fn index(&self) -> usize {
-- 
2.43.0

