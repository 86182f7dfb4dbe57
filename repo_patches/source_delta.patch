From cc01bc7ff3692b50e1740a71005cdca0de57e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 01/17] fix: don't drop the new item's pair when the swapped
 item isn't in the map

---
 src/cycle_map.rs         | 8 ++++++++
 src/partial_cycle_map.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 9d1ca7f..c468b83 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -348,6 +348,10 @@ where
     /// assert!(map.are_paired(&0, &"84".to_string()));
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, (L, R)> {
+        // Nothing can be swapped, and so nothing must be removed, if the old item isn't in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -498,6 +502,10 @@ where
     /// assert!(map.are_paired(&84, &"0".to_string()));
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, (L, R)> {
+        // Nothing can be swapped, and so nothing must be removed, if the old item isn't in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 229d56a..27dcb51 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -840,6 +840,10 @@ where
     /// assert_eq!(map.swap_left(&4, 5), Neither);
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, OptionalPair<L, R>> {
+        // Nothing can be swapped, and so nothing must be removed, if the old item isn't in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -995,6 +999,10 @@ where
     /// assert_eq!(map.swap_right(&"4", "5"), Neither);
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, OptionalPair<L, R>> {
+        // Nothing can be swapped, and so nothing must be removed, if the old item isn't in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From 047f2db833cb657b2bc48cfe11df773909c3471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 02/17] fix: don't panic in CycleMap::swap_right_or_insert when
 the left item exists

---
 src/cycle_map.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index c468b83..e72f60c 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -618,10 +618,9 @@ where
             // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
                 InsertOptional::Neither => Neither,
+                InsertOptional::SomeLeft(pair) => SomeRight(pair),
                 InsertOptional::SomeRight(pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
+                InsertOptional::SomeBoth(pair, (_, right)) => SomeBoth(right, pair),
             }
         }
     }
-- 
2.43.0


From 829d110a4ed49f387c1da10498fd8be92f5cbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 03/17] fix: remove the remaining right items when CycleMap's
 drain is dropped

---
 src/cycle_map.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index e72f60c..41782da 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1339,6 +1339,13 @@ where
     }
 }
 
+impl<L, R> Drop for DrainIter<'_, L, R> {
+    fn drop(&mut self) {
+        // The left items are dropped by `left_iter`
+        self.right_ref.clear();
+    }
+}
+
 impl<L, R> ExactSizeIterator for DrainIter<'_, L, R>
 where
     L: Hash + Eq,
-- 
2.43.0


From 342f6c28d9eb35e29bd01c1e5f5ea99932a36b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 04/17] fix: yield every unpaired right item from
 PartialCycleMap's drain

---
 src/partial_cycle_map.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 27dcb51..e9dd4ec 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1374,6 +1374,7 @@ where
     pub fn drain(&mut self) -> DrainIter<'_, L, R> {
         DrainIter {
             left_iter: self.left_set.drain(),
+            right_iter: None,
             right_ref: &mut self.right_set,
         }
     }
@@ -2282,6 +2283,8 @@ where
     R: Eq + Hash,
 {
     left_iter: RawDrain<'a, MappingPair<L>>,
+    // Created once the left items have been drained
+    right_iter: Option<RawIter<MappingPair<R>>>,
     right_ref: &'a mut RawTable<MappingPair<R>>,
 }
 
@@ -2328,16 +2331,22 @@ where
                 }
                 None => Some(SomeLeft(left.extract())),
             },
-            None => self
-                .right_ref
-                .drain()
-                .next()
-                .map(|right| SomeRight(right.extract())),
+            // All that is left in the right set are the unpaired items
+            None => {
+                let right_ref = &*self.right_ref;
+                let right = self
+                    .right_iter
+                    .get_or_insert_with(|| unsafe { right_ref.iter() })
+                    .next()?;
+                let right = unsafe { self.right_ref.remove(right) };
+                Some(SomeRight(right.extract()))
+            }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2347,7 +2356,11 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
+        let right_iter = unsafe { self.right_ref.iter() };
         self.left_iter.len()
+            + right_iter
+                .filter(|right| unsafe { right.as_ref() }.hash.is_none())
+                .count()
     }
 }
 
-- 
2.43.0


From 5632c8ef76935bf052ea021dbfc1566b82bb848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:10 +0000
Subject: [PATCH 05/17] fix: only visit unpaired right items on their own in
 PartialCycleMap's drain_filter

---
 src/partial_cycle_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index e9dd4ec..85f5e1a 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2458,7 +2458,8 @@ impl<L: Eq, R: Eq> DrainFilterInner<'_, L, R> {
         }
         for right in self.right_iter.by_ref() {
             let r_pairing = unsafe { right.as_ref() };
-            if f(SomeRight(&r_pairing.value)) {
+            // Paired items have been visited with their left items
+            if r_pairing.hash.is_none() && f(SomeRight(&r_pairing.value)) {
                 let r = unsafe { self.right_ref.remove(right).extract() };
                 return Some(SomeRight(r));
             }
-- 
2.43.0


From b20cf43f408082453f76059b44ba7f9e71421a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 06/17] fix: only unpair items that are paired with each other

---
 src/partial_cycle_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 85f5e1a..8828b52 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -555,7 +555,7 @@ where
         match (opt_left, opt_right) {
             (Some(left), Some(right)) => match (left.hash, right.hash) {
                 (Some(l_h), Some(r_h)) => {
-                    if l_hash == r_h && r_hash == l_h {
+                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                         left.hash = None;
                         right.hash = None;
                         right.id = self.counter;
-- 
2.43.0


From ce6a962b3b24c7f6a96e4241e15f9c8ed91f5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 07/17] fix: don't panic in PartialCycleMap's swap_*_or_insert
 when the new pair replaces items

---
 src/partial_cycle_map.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 8828b52..836ee1d 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -954,9 +954,11 @@ where
             // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(new, to_insert) {
                 (Neither, Neither) => Neither,
-                (Neither, pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (Neither, pair) | (pair, Neither) => SomeRight(pair),
+                // The new left item and the inserted right item each replaced something
+                (SomeLeft(l) | SomeBoth(l, _), pair) => SomeBoth(l, pair),
+                (SomeRight(_), _) => {
+                    unreachable!("Anything removed via a left item contains a left item")
                 }
             }
         }
@@ -1118,9 +1120,11 @@ where
             // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
                 (Neither, Neither) => Neither,
-                (pair, Neither) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (pair, Neither) | (Neither, pair) => SomeRight(pair),
+                // The inserted left item and the new right item each replaced something
+                (pair, SomeRight(r) | SomeBoth(_, r)) => SomeBoth(r, pair),
+                (_, SomeLeft(_)) => {
+                    unreachable!("Anything removed via a right item contains a right item")
                 }
             }
         }
-- 
2.43.0


From 410f49275da333631243fd7b201b5489243045cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 08/17] fix: compare unpaired items and the right length in
 PartialCycleMap's PartialEq

---
 src/partial_cycle_map.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 836ee1d..3168b5c 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1757,17 +1757,17 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_right() != other.len_right() {
             return false;
         }
-        self.iter().all(|op| match op {
-            SomeLeft(l) => other.get_right(l).is_none(),
-            SomeRight(r) => other.get_left(r).is_none(),
-            SomeBoth(l, r) => other.are_paired(l, r),
-            _ => {
-                unreachable!("There has to be at least one item.")
-            }
-        })
+        self.iter_paired().all(|(l, r)| other.are_paired(l, r))
+            && self.iter_unpaired().all(|op| match op {
+                SomeLeft(l) => other.contains_left(l) && !other.is_left_paired(l),
+                SomeRight(r) => other.contains_right(r) && !other.is_right_paired(r),
+                _ => {
+                    unreachable!("We are only iterating over unpaired items.")
+                }
+            })
     }
 }
 
-- 
2.43.0


From ca1e1280a89bde8c8cb7f79ad1ce60554ad8b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 09/17] fix: keep GroupMap's pairings consistent in swap_right
 and swap_right_remove

---
 src/group_map.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c33b224..98e1773 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -471,26 +471,32 @@ where
     /// [`swap_right_remove`]: #method.swap_right_remove
     pub fn swap_right(&mut self, old: &R, new: R) {
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
+        if *old != new && self.contains_right(old) {
+            // The new item replaces an equal right item, as in `insert_right`
+            self.remove_right(&new);
+        }
         match self.right_set.get_mut(old_hash, equivalent_key_right(old)) {
             None => {
                 self.insert_right(new);
             }
+            // The items paired with `old` are already paired with `new`
+            Some(_) if *old == new => {}
             Some(r) => {
                 let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
                 let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+                let new_id = self.right_counter;
                 let item = RightItem {
                     value: new,
                     pairs: set.clone(),
-                    id: self.right_counter,
+                    id: new_id,
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                    let left = self.left_set.get_mut(hash, left_with_left_id(id)).unwrap();
+                    left.hash = new_hash;
+                    left.r_id = new_id;
                 }
             }
         }
@@ -523,21 +529,23 @@ where
                 None
             }
             Some(mut r) => {
+                // The new item replaces an equal right item, as in `insert_right`
+                self.remove_right(&new);
                 let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
                 let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+                let new_id = self.right_counter;
                 let item = RightItem {
                     value: new,
                     pairs: set.clone(),
-                    id: self.right_counter,
+                    id: new_id,
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                    let left = self.left_set.get_mut(hash, left_with_left_id(id)).unwrap();
+                    left.hash = new_hash;
+                    left.r_id = new_id;
                 }
                 Some(r.value)
             }
-- 
2.43.0


From 978cca03849381ec727e5cdf3463bf1717eac217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 10/17] fix: unpair the left items that GroupMap::retain_paired
 removes

---
 src/group_map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 98e1773..48c7d99 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -991,7 +991,13 @@ where
             }
         }
         for (l_hash, id) in to_drop {
-            self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            if let Some(left) = self.left_set.remove_entry(l_hash, left_with_left_id(id)) {
+                self.right_set
+                    .get_mut(left.hash, right_with_right_id(left.r_id))
+                    .unwrap()
+                    .pairs
+                    .remove(&(l_hash, id));
+            }
         }
     }
 
-- 
2.43.0


From 24e3cf1df1ba0f125ff64052098bd4a07be9d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 11/17] fix: compare unpaired items and both lengths in
 GroupMap's PartialEq

---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 48c7d99..0a6b74b 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1079,12 +1079,12 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_left() != other.len_left() || self.len_right() != other.len_right() {
             return false;
         }
         self.iter().all(|(l_opt, r)| match l_opt {
             Some(l) => other.are_paired(l, r),
-            None => !other.is_right_paired(r),
+            None => other.contains_right(r) && !other.is_right_paired(r),
         })
     }
 }
-- 
2.43.0


From 23bd2c2794ab5a8b9b783c1e01caa7e506644a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 12/17] fix: don't lose items when cloning GroupMap's iterator

---
 src/group_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 0a6b74b..7ee9e74 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1328,7 +1328,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             right_iter: self.right_iter.clone(),
-            left_iter: None,
+            left_iter: self.left_iter.clone(),
             map_ref: self.map_ref,
         }
     }
-- 
2.43.0


From 7cd5067db661c85ea2b7fce76e9050f41da17b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 13/17] fix: report size hints that match what the iterators
 yield

---
 src/group_map.rs         |  6 ++++--
 src/partial_cycle_map.rs | 14 +++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 7ee9e74..ce36190 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1391,7 +1391,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.clone().count();
+        (len, Some(len))
     }
 }
 
@@ -1531,7 +1532,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.clone().count();
+        (len, Some(len))
     }
 }
 
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 3168b5c..3dff34b 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2121,7 +2121,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.clone().count();
+        (len, Some(len))
     }
 }
 
@@ -2201,7 +2202,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.clone().count();
+        (len, Some(len))
     }
 }
 
@@ -2414,7 +2416,13 @@ where
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, self.inner.left_iter.size_hint().1)
+        let left = self.inner.left_iter.size_hint().1;
+        // The right items aren't iterated over until the left items have been
+        let right = match self.inner.reset_right_iter {
+            true => Some(self.inner.right_ref.len()),
+            false => self.inner.right_iter.size_hint().1,
+        };
+        (0, left.zip(right).map(|(l, r)| l + r))
     }
 }
 
-- 
2.43.0


From 926c9b9ae7a406f9f26823fa6cd04f11ee26f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 14/17] fix: bound the memory allocated from a deserializer's
 size hint

---
 src/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 62af85a..549653a 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -43,8 +43,10 @@ where
     where
         M: SeqAccess<'de>,
     {
+        // The size hint can come from untrusted input, so it can't be used to allocate freely
+        let capacity = access.size_hint().unwrap_or(0).min(4096);
         let mut map: CycleMap<L, R, S> =
-            CycleMap::with_capacity_and_hasher(access.size_hint().unwrap_or(0), Default::default());
+            CycleMap::with_capacity_and_hasher(capacity, Default::default());
 
         while let Some(entry) = access.next_element::<(L, R)>()? {
             map.insert(entry.0, entry.1);
-- 
2.43.0


From bbe442e5abcfc9e32863ebc9eeecb63e0fad68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 15/17] fix: print the unpaired right items of a
 PartialCycleMap with Debug

---
 src/partial_cycle_map.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 3dff34b..0058d65 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1746,7 +1746,11 @@ where
     S: BuildHasher,
 {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        fmt.debug_set().entries(self.iter()).finish()
+        // `iter` doesn't yield the unpaired right items
+        fmt.debug_set()
+            .entries(self.iter())
+            .entries(self.iter_unpaired().filter(|op| matches!(op, SomeRight(_))))
+            .finish()
     }
 }
 
-- 
2.43.0


From ec81f6f0b1882cf217a1fbb6453ea8d919193bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:08 +0000
Subject: [PATCH 16/17] fix: report the smaller capacity of a CycleMap's two
 sets

---
 src/cycle_map.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 41782da..8d699d9 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1038,7 +1038,7 @@ impl<L, R, S> CycleMap<L, R, S> {
 
     /// Returns the number of items that the inner sets can hold without reallocation.
     ///
-    /// Note: Only one value is returned since both sets always have the same capacity.
+    /// Note: Only one value is returned, the smaller capacity of the two sets.
     ///
     /// # Examples
     /// ```rust
@@ -1047,8 +1047,9 @@ impl<L, R, S> CycleMap<L, R, S> {
     /// assert!(map.capacity() >= 100);
     /// ```
     pub fn capacity(&self) -> usize {
-        // The size of the sets is always equal
-        self.left_set.capacity()
+        // The sets hold the same number of items, but removing items can cost each set a different
+        // part of its capacity
+        self.left_set.capacity().min(self.right_set.capacity())
     }
 
     /// Returns the number of items in the inner sets.
-- 
2.43.0


From 88cf88ff0a3be9420c96cece48d4a8d0c9fc03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:05 +0000
Subject: [PATCH 17/17] fix: leave an empty map behind when a drain is leaked

The right items of a leaked CycleMap or PartialCycleMap drain stayed in the map
without their left partners, so later lookups and insertions panicked.
---
 src/cycle_map.rs         |  8 ++++++--
 src/partial_cycle_map.rs | 14 +++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 8d699d9..fd1e258 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -804,6 +804,7 @@ where
         self.counter = 0;
         DrainIter {
             left_iter: self.left_set.drain(),
+            right_set: mem::take(&mut self.right_set),
             right_ref: &mut self.right_set,
         }
     }
@@ -1316,6 +1317,8 @@ impl<T> FusedIterator for SingleIter<'_, T> where T: Hash + Eq {}
 #[allow(missing_debug_implementations)]
 pub struct DrainIter<'a, L, R> {
     left_iter: RawDrain<'a, MappingPair<L>>,
+    // Taken out of the map so that both sides of the map are empty if the drain is leaked
+    right_set: RawTable<MappingPair<R>>,
     right_ref: &'a mut RawTable<MappingPair<R>>,
 }
 
@@ -1329,7 +1332,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let left = self.left_iter.next()?;
         let right = self
-            .right_ref
+            .right_set
             .remove_entry(left.hash, just_id(left.id))
             .unwrap();
         Some((left.extract(), right.extract()))
@@ -1343,7 +1346,8 @@ where
 impl<L, R> Drop for DrainIter<'_, L, R> {
     fn drop(&mut self) {
         // The left items are dropped by `left_iter`
-        self.right_ref.clear();
+        self.right_set.clear();
+        mem::swap(self.right_ref, &mut self.right_set);
     }
 }
 
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 0058d65..8ecce89 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1379,6 +1379,7 @@ where
         DrainIter {
             left_iter: self.left_set.drain(),
             right_iter: None,
+            right_set: mem::take(&mut self.right_set),
             right_ref: &mut self.right_set,
         }
     }
@@ -2295,6 +2296,8 @@ where
     left_iter: RawDrain<'a, MappingPair<L>>,
     // Created once the left items have been drained
     right_iter: Option<RawIter<MappingPair<R>>>,
+    // Taken out of the map so that both sides of the map are empty if the drain is leaked
+    right_set: RawTable<MappingPair<R>>,
     right_ref: &'a mut RawTable<MappingPair<R>>,
 }
 
@@ -2309,6 +2312,7 @@ where
             drop(item);
             mem::forget(guard);
         }
+        mem::swap(self.right_ref, &mut self.right_set);
     }
 }
 
@@ -2333,7 +2337,7 @@ where
             Some(left) => match left.hash {
                 Some(hash) => {
                     let right = self
-                        .right_ref
+                        .right_set
                         .remove_entry(hash, just_id(left.id))
                         .unwrap()
                         .extract();
@@ -2343,12 +2347,12 @@ where
             },
             // All that is left in the right set are the unpaired items
             None => {
-                let right_ref = &*self.right_ref;
+                let right_set = &self.right_set;
                 let right = self
                     .right_iter
-                    .get_or_insert_with(|| unsafe { right_ref.iter() })
+                    .get_or_insert_with(|| unsafe { right_set.iter() })
                     .next()?;
-                let right = unsafe { self.right_ref.remove(right) };
+                let right = unsafe { self.right_set.remove(right) };
                 Some(SomeRight(right.extract()))
             }
         }
@@ -2366,7 +2370,7 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
-        let right_iter = unsafe { self.right_ref.iter() };
+        let right_iter = unsafe { self.right_set.iter() };
         self.left_iter.len()
             + right_iter
                 .filter(|right| unsafe { right.as_ref() }.hash.is_none())
-- 
2.43.0

