From 3d98ba35d94d0e747c15b7c5127d572f9ccf5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 1/9] fix: start component slices at the beginning of the group
 range

Slicing a grouped query with an exclude filter returned components from the
start of the storage instead of the components in the group range.
---
 src/query/query_part.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 7d85ab3..5cec82a 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -257,7 +257,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
@@ -336,7 +336,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts_mut(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts_mut(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
-- 
2.43.0


From b2bd3dbcdea4f65cc45c8b0a15f526ec20c71585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 2/9] fix: do not swap entity versions when swapping dense
 indexes

Grouping entities with different versions made their components unreachable,
because each entity ended up with the version of the other one.
---
 src/entity/sparse_vec.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/entity/sparse_vec.rs b/src/entity/sparse_vec.rs
index 612eb89..58864c9 100644
--- a/src/entity/sparse_vec.rs
+++ b/src/entity/sparse_vec.rs
@@ -94,8 +94,8 @@ impl SparseVec {
         unsafe { self.slots.get_unchecked_mut(index) }
     }
 
-    /// Swaps the entities at the given dense indexes without checking their
-    /// validity.
+    /// Swaps the dense indexes of the entities at the given sparse indexes
+    /// without checking their validity. Versions are left unchanged.
     #[inline]
     pub unsafe fn swap_nonoverlapping(&mut self, a: usize, b: usize) {
         debug_assert!(a < self.slots.len());
@@ -104,7 +104,10 @@ impl SparseVec {
 
         let entity_a = &mut *self.slots.as_mut_ptr().add(a);
         let entity_b = &mut *self.slots.as_mut_ptr().add(b);
-        mem::swap(entity_a, entity_b);
+
+        if let (Some(slot_a), Some(slot_b)) = (entity_a, entity_b) {
+            mem::swap(&mut slot_a.index, &mut slot_b.index);
+        }
     }
 
     /// Removes all entities from the storage.
-- 
2.43.0


From a79a539aa471026714b75d50f1f568b043f94f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 3/9] fix: do not resurrect destroyed entities on maintain

Entities allocated directly were returned again by the allocator's maintain,
which added them back to the world even if they had been destroyed.
---
 src/entity/entity_allocator.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index eddf900..13762b5 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -16,10 +16,21 @@ impl EntityAllocator {
         let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
 
         if recycled_since_maintain < self.recycled.len() {
-            *self.recycled_since_maintain.get_mut() += 1;
-            Some(self.recycled[self.recycled.len() - recycled_since_maintain - 1])
+            // Remove the entity from the queue, so that `maintain` won't return
+            // it.
+            self.recycled
+                .remove(self.recycled.len() - recycled_since_maintain - 1)
         } else if let Ok(index) = u32::try_from(*self.next_index_to_allocate.get_mut()) {
+            // Queue the new entities allocated since maintain, so that
+            // `last_maintained_index` can be moved past the returned entity.
+            for pending_index in self.last_maintained_index..u64::from(index) {
+                self.recycled
+                    .push_back(Entity::with_index(pending_index as u32));
+                *self.recycled_since_maintain.get_mut() += 1;
+            }
+
             *self.next_index_to_allocate.get_mut() += 1;
+            self.last_maintained_index = *self.next_index_to_allocate.get_mut();
             Some(Entity::with_index(index))
         } else {
             None
-- 
2.43.0


From 943cbd1f7a5d3943cd85f22003f7fc23de10c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 4/9] fix: insert smaller groups into existing group families

Adding a group nested in a larger group panicked, while some incompatible
groups were accepted and produced a layout with the wrong groups.
---
 src/component/group_layout.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 2fda1b6..68273f3 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -132,9 +132,9 @@ impl GroupFamily {
                     return true;
                 }
                 Ordering::Greater => {
-                    let is_superset = self.components[prev_arity..arity]
+                    let is_superset = components
                         .iter()
-                        .all(|c| !components.contains(c));
+                        .all(|c| self.components[..arity].contains(c));
 
                     if !is_superset {
                         panic_incompatible_groups(components, &self.components[..arity]);
@@ -149,7 +149,7 @@ impl GroupFamily {
         // Insert new group.
         if let Some(index) = index {
             let next_arity = self.arities[index];
-            self.components[..next_arity].sort_by_cached_key(|c| components.contains(c));
+            self.components[..next_arity].sort_by_cached_key(|c| !components.contains(c));
             self.arities.insert(index, components.len());
         } else {
             for component in components {
-- 
2.43.0


From 8fb997ff4de5ab49ed35be28a51c18492e8377dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 5/9] fix: allow the documented maximum number of groups and
 group arity

Layouts with MAX_GROUP_COUNT groups or with groups of MAX_GROUP_ARITY component
types panicked when set on a world.
---
 src/component/group_mask.rs   | 8 ++++----
 src/component/storage_mask.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/component/group_mask.rs b/src/component/group_mask.rs
index 318ddcb..1b5a147 100644
--- a/src/component/group_mask.rs
+++ b/src/component/group_mask.rs
@@ -12,20 +12,20 @@ impl GroupMask {
     #[must_use]
     pub const fn from_to(from: usize, to: usize) -> Self {
         assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1_u128 << (to - from)) - 1) << from) as u64)
     }
 
     #[inline]
     #[must_use]
     pub const fn skip_from_to(from: usize, to: usize) -> Self {
         assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(!(((1 << (to - from)) - 1) << from))
+        Self(!((((1_u128 << (to - from)) - 1) << from) as u64))
     }
 
     #[inline]
diff --git a/src/component/storage_mask.rs b/src/component/storage_mask.rs
index e49a44c..3f9a2ce 100644
--- a/src/component/storage_mask.rs
+++ b/src/component/storage_mask.rs
@@ -11,10 +11,10 @@ impl StorageMask {
     #[must_use]
     pub fn from_to(from: usize, to: usize) -> Self {
         assert!(from < MAX_GROUP_ARITY);
-        assert!(to < MAX_GROUP_ARITY);
+        assert!(to <= MAX_GROUP_ARITY);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1_u32 << (to - from)) - 1) << from) as u16)
     }
 }
 
-- 
2.43.0


From 3cc7ff0675ca08b0f745284441a4106cb55887d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 6/9] fix: keep components valid if a destructor panics in
 delete

The dropped component remained in the storage if its destructor panicked.
---
 src/component/component_sparse_set.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 25fb590..17f108a 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -112,10 +112,13 @@ impl ComponentSparseSet {
         }
 
         let dropped_ptr = self.components.cast::<T>().add(index);
-        dropped_ptr.drop_in_place();
-
         let last_ptr = self.components.cast::<T>().add(self.len);
+
+        // Replace dropped component with last component before running its
+        // destructor, which may panic.
+        let component = dropped_ptr.read();
         last_ptr.copy_to(dropped_ptr, 1);
+        drop(component);
     }
 
     #[inline]
-- 
2.43.0


From f1ab3a7d2cbc163866f8cf0e79d10dfd8e5ebd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 7/9] fix: do not drop components twice if a destructor panics
 in clear

The length was only reset after dropping the components, so the components
which were already dropped remained reachable after a panic.
---
 src/component/component_sparse_set.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 17f108a..d528640 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -302,15 +302,16 @@ impl ComponentSparseSet {
     {
         self.sparse.clear();
 
+        // Reset the length before running destructors, which may panic.
+        let len = mem::take(&mut self.len);
+
         if mem::needs_drop::<T>() {
-            for i in 0..self.len {
+            for i in 0..len {
                 unsafe {
                     self.components.cast::<T>().add(i).drop_in_place();
                 }
             }
         }
-
-        self.len = 0;
     }
 
     unsafe fn drop_typed<T>(&mut self)
-- 
2.43.0


From 3eb80535d2c3301d6657357ce7bae9aa5895be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 8/9] fix: look up all storages before inserting components

---
 src/component/component_set.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 7b629d8..81e2b2c 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -44,7 +44,7 @@ macro_rules! impl_component_set {
             unsafe fn insert(world: &mut World, entity: Entity, components: Self) {
                 let mut group_mask = GroupMask::EMPTY;
 
-                $({
+                let sparse_sets = ($({
                     let metadata = world
                         .components
                         .metadata
@@ -57,11 +57,14 @@ macro_rules! impl_component_set {
                         world
                             .components
                             .components
-                            .get_unchecked_mut(metadata.storage_index)
-                            .get_mut()
-                            .insert(entity, components.$idx);
+                            .get_unchecked(metadata.storage_index)
+                            .as_ptr()
                     }
-                })*
+                },)*);
+
+                unsafe {$(
+                    (*sparse_sets.$idx).insert(entity, components.$idx);
+                )*}
 
                 if group_mask != GroupMask::EMPTY {
                     unsafe {
-- 
2.43.0


From aadad4032793a86dfa59e66ee8b66fc32766484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 9/9] fix: drop the emptied storages when the layout is set

Setting a layout moves every storage out of the component list and leaves a
placeholder behind. The placeholders were never removed, so that the list, and
the time to strip an entity or clear the world, grew with every layout.
---
 src/component/component_storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 380e5e4..bf17904 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -306,6 +306,7 @@ impl ComponentStorage {
             })
             .collect::<FxHashMap<_, _>>();
 
+        self.components.clear();
         self.groups.clear();
         self.metadata.clear();
 
-- 
2.43.0

