From e794a8a416e702b05f5fa88a518a6ddc3ccbea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 01/20] fix: limit the rows of a data page to what its layout
 holds

The capacity of the id vector may exceed the reserved one (small vectors, a
page reused by another archetype), so rows were stored past the space of their
component and past the page.
---
 src/archetype_data_page.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..6afab06 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entities_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -21,12 +22,14 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entities_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
-        let capacity = archetype.entities_capacity();
-        self.entities_ids.reserve(capacity);
+        // The vector may have more space than was reserved, the page doesn't have it
+        self.entities_capacity = archetype.entities_capacity();
+        self.entities_ids.reserve(self.entities_capacity);
     }
 
     #[inline(always)]
@@ -36,7 +39,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entities_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From 821716ff802ede6be27da60aa3b2a5c6ea9aaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 02/20] fix: align data pages for their components

Pages were allocated with the alignment of u8, so references to components in
them could be misaligned.
---
 src/archetype_data_page.rs | 15 ++++++++++++---
 src/archetype_layout.rs    |  7 +++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 6afab06..27098ff 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -1,4 +1,6 @@
-use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::ArchetypeLayout};
+use std::alloc::Layout;
+
+use crate::{archetype::ArchetypesUnion, Archetype, archetype_layout::ArchetypeLayout};
 
 /// Reusable page of the components data with a fixed size (4096 Bytes), related to the concrete archetype.
 /// It contains data for all components of the some entities subset
@@ -15,9 +17,10 @@ pub(crate) struct SwapRemoveInfo {
 
 impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
+    pub const PAGE_ALIGN_BYTES: usize = 4096;
 
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr = unsafe { std::alloc::alloc(Self::data_layout()) };
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -26,6 +29,12 @@ impl ArchetypeDataPage {
         }
     }
 
+    fn data_layout() -> Layout {
+        unsafe {
+            Layout::from_size_align_unchecked(Self::PAGE_SIZE_BYTES, Self::PAGE_ALIGN_BYTES)
+        }
+    }
+
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         // The vector may have more space than was reserved, the page doesn't have it
         self.entities_capacity = archetype.entities_capacity();
@@ -160,6 +169,6 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe { std::alloc::dealloc(self.components_data_ptr, Self::data_layout()) };
     }
 }
diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..522574b 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -13,6 +13,13 @@ impl ArchetypeLayout {
         let aligns = source_archetype.component_aligns();
         let component_count = source_archetype.component_count();
 
+        assert!(
+            unsafe { std::slice::from_raw_parts(aligns, component_count) }
+                .iter()
+                .all(|a| *a <= ArchetypeDataPage::PAGE_ALIGN_BYTES),
+            "Alignment of a component exceeds alignment of the data page"
+        );
+
         let entities_capacity = unsafe {
             Self::calculate_entities_capacity(sizes, aligns, component_count)
         };
-- 
2.43.0


From a7af83b6a1fdd845e54ead1b87c1d85f50dc45b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 03/20] fix: fit the rows of an archetype in its data page

The approximate capacity ignored most of the padding, so some component sets
panicked, and rows bigger than a page were given a capacity of zero.
---
 src/archetype_layout.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index 522574b..0f78d19 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -20,9 +20,21 @@ impl ArchetypeLayout {
             "Alignment of a component exceeds alignment of the data page"
         );
 
-        let entities_capacity = unsafe {
+        let mut entities_capacity = unsafe {
             Self::calculate_entities_capacity(sizes, aligns, component_count)
         };
+        // Padding between the components may take more space than it was approximated
+        while unsafe {
+            Self::calculate_data_size(sizes, aligns, component_count, entities_capacity)
+        } > ArchetypeDataPage::PAGE_SIZE_BYTES
+        {
+            entities_capacity -= 1;
+        }
+        assert!(
+            entities_capacity > 0,
+            "Components of one entity don't fit in the data page"
+        );
+
         let offsets = unsafe {
             Self::calculate_offsets(sizes, aligns, component_count, entities_capacity)
         };
@@ -58,6 +70,17 @@ impl ArchetypeLayout {
         entities_capacity
     }
 
+    unsafe fn calculate_data_size(
+        sizes: *const usize,
+        aligns: *const usize,
+        component_count: usize,
+        entities_capacity: usize,
+    ) -> usize {
+        (0..component_count).fold(0, |offset: usize, i| {
+            offset.next_multiple_of(*aligns.add(i)) + *sizes.add(i) * entities_capacity
+        })
+    }
+
     unsafe fn calculate_offsets(
         sizes: *const usize,
         aligns: *const usize,
-- 
2.43.0


From 1f15207f5b7f0ca01e0dff104f641bae8798794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 04/20] fix: accept components without data

Deriving Component accepts structs whose fields are zero sized, storing them
divided by zero.
---
 src/archetype_layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index 0f78d19..87480a8 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -63,7 +63,7 @@ impl ArchetypeLayout {
         let sizes = std::slice::from_raw_parts(sizes, component_count);
         let entities_capacity = sizes
             .iter()
-            .map(|s| bytes_per_components_row_approx / *s)
+            .map(|s| bytes_per_components_row_approx / (*s).max(1))
             .min()
             .unwrap();
 
-- 
2.43.0


From f39945bf31d0b52fba75fd5235336eac66e66e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 05/20] fix: never hand out an archetype slot that is in use
 again

The list of free archetypes is not sorted, so binary search missed archetypes
that were used again and their slot went to another archetype.
---
 src/archetypes_container.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..50f4a3f 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,9 +207,10 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
+                // Free archetypes are in order of release
+                match self.free_archetypes.iter().position(|free| *free == i) {
+                    Some(i) => { self.free_archetypes.remove(i); },
+                    None => {}
                 };
 
                 return i;
-- 
2.43.0


From 0d7c600911f8bfd92a2b6508ac50767b4c1b4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 06/20] fix: reject destroying a dead entity before changing
 the store

The row of the entity that reuses the id was removed before the panic.
---
 src/store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index f48a636..3b38b65 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -84,6 +84,9 @@ impl Store {
 
     pub fn destroy_entity(&mut self, entity: Entity) {
         let entity_id = entity.id;
+        // Rejects entities that are not alive, before anything is changed
+        self.entities_container.destroy_entity(entity);
+
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
         if has_archetype {
@@ -97,7 +100,6 @@ impl Store {
             self.swap_remove_internal(entity_in_arch);
         }
 
-        self.entities_container.destroy_entity(entity);
         self.tag_container.remove_all_tags_for_entity(entity_id);
         self.order_group_container
             .remove_all_orders_for_id(entity_id);
-- 
2.43.0


From e41e9a0579d6b2bd601bc53874d4ae18a8656e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 07/20] fix: allow removing all components of an entity

It panicked because an archetype without components cannot be built.
---
 src/store.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/store.rs b/src/store.rs
index 3b38b65..a35d1a0 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -178,6 +178,15 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
+
+        let types_to_remove = T::into_archetype();
+        if types_to_remove.is_include(prev_arch) {
+            // No components left
+            self.swap_remove_internal(prev_entity_in_arch);
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            return;
+        }
+
         let new_arch = ArchetypeBuilder::new()
             .include_archetype(&prev_arch)
             .exclude_components::<T>()
-- 
2.43.0


From 11d6318e40ea19c35cca5e9228b359e92d8a5d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 08/20] fix: ignore handles of dead entities in tags and order
 groups

They read and changed tags and order of the entity that reuses the id, as
component calls already avoid.
---
 src/order_group_container.rs | 24 ++++++++++++++++++++++++
 src/tag_container.rs         | 10 +++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..9fdb08c 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -341,6 +341,10 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if self.is_alive(entity) == false {
+            return;
+        }
+
         self.order_group_container.add_id_ordered_by::<T>(entity.id);
     }
 
@@ -349,6 +353,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
+        if self.is_alive(entity) == false || self.is_alive(next_to_entity) == false {
+            return;
+        }
+
         self.order_group_container
             .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
     }
@@ -358,16 +366,28 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
+        if self.is_alive(entity) == false || self.is_alive(previous_to_entity) == false {
+            return;
+        }
+
         self.order_group_container
             .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if self.is_alive(entity) == false {
+            return;
+        }
+
         self.order_group_container
             .remove_id_ordered_by::<T>(entity.id);
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if self.is_alive(entity) == false {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -377,6 +397,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if self.is_alive(entity) == false {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..afbbe26 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -96,17 +96,25 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
+        if self.is_alive(entity) == false {
+            return;
+        }
+
         self.tag_container.add_tag::<T>(entity.id);
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
+        if self.is_alive(entity) == false {
+            return;
+        }
+
         self.tag_container.remove_tag::<T>(entity.id);
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From 3d745ab8cda8c819bfe0105249d558d450ae9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 09/20] fix: reject breaking an order group

Adding the only member again linked it to itself, and inserting next to an
entity without order left links that belong to no list.
---
 src/order_group_container.rs | 47 ++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 9fdb08c..431dd7e 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -51,7 +51,7 @@ impl OrderGroupContainer {
                 let fwd_id = *forward_links.add(entity_id as usize);
                 let bwd_id = &mut *backward_links.add(entity_id as usize);
 
-                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id);
+                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id, *head);
 
                 *forward_links.add(*tail as usize) = entity_id;
                 *bwd_id = *tail;
@@ -68,15 +68,25 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *fwd_entity_id,
+                *bwd_entity_id,
+                *head,
+            );
+            Self::assert_entity_has_order(
+                next_to_id,
+                *backward_links.add(next_to_id as usize),
+                *head,
+            );
 
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
@@ -112,7 +122,17 @@ impl OrderGroupContainer {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *fwd_entity_id,
+                *bwd_entity_id,
+                *head,
+            );
+            Self::assert_entity_has_order(
+                previous_to_id,
+                *backward_links.add(previous_to_id as usize),
+                *head,
+            );
 
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
@@ -129,7 +149,24 @@ impl OrderGroupContainer {
         }
     }
 
-    fn assert_entity_has_no_order(entity_id: u32, fwd_id: u32, bwd_id: u32) {
+    fn assert_entity_has_order(entity_id: u32, bwd_id: u32, head_id: u32) {
+        debug_assert!(
+            bwd_id != Entity::NULL_ID || head_id == entity_id,
+            "Entity {entity_id} has no order, so nothing can be ordered by it"
+        );
+    }
+
+    fn assert_entity_has_no_order(
+        entity_id: u32,
+        fwd_id: u32,
+        bwd_id: u32,
+        head_id: u32,
+    ) {
+        debug_assert!(
+            head_id != entity_id,
+            "Entity {entity_id} is already the first in order. Added entity must have no orders"
+        );
+
         debug_assert!(
             fwd_id == Entity::NULL_ID,
             "Entity {entity_id} already reference to the next order of entity {fwd_id}. Added entity must have no orders"
-- 
2.43.0


From 647a47d0a7555c1e038cf28e3be25854cd78995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 10/20] fix: filter by a tag that was never added

filter_tag panicked instead of yielding nothing.
---
 src/query/component.rs | 6 ++++--
 src/tag_container.rs   | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..fae0140 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -34,7 +34,8 @@ pub struct WithEntitiesIter<'a, T: ComponentQueryAccess> {
 
 pub struct FilterTagIter<'a, T: ComponentQueryAccess> {
     source_iter: WithEntitiesIter<'a, T>,
-    entity_to_has_tag: *const u32,
+    // None, if no entity had the tag yet
+    entity_to_has_tag: Option<*const u32>,
 }
 
 pub fn readonly<R: ComponentTuple>() -> ComponentQuery<ReadonlyAccess<R>> {
@@ -189,7 +190,8 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
 
     fn next(&mut self) -> Option<Self::Item> {
         self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
+            let has_tag = self.entity_to_has_tag?;
+            if bitvec_utils::is_bit_on(has_tag, e.id as usize) {
                 Some((e, o))
             } else {
                 self.next()
diff --git a/src/tag_container.rs b/src/tag_container.rs
index afbbe26..28f036b 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -17,15 +17,15 @@ impl TagContainer {
         }
     }
 
-    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> *const u32 {
+    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> Option<*const u32> {
         let type_id = TypeId::of::<T>();
         let tag_index = match self.tag_ids.binary_search(&type_id) {
             Ok(i) => i,
-            Err(_) => panic!("Failed to find tag with id: {type_id:?}")
+            Err(_) => return None,
         };
 
         unsafe {
-            *self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index)
+            Some(*self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index))
         }
     }
 
-- 
2.43.0


From 3a7ca2f146c5c97e12e0bb6a5ac1f8e77eec3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 11/20] fix: skip any number of entities without a tag

The tag filter recursed for each skipped entity and overflowed the stack.
---
 src/query/component.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index fae0140..bbf1b88 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -189,13 +189,8 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            let has_tag = self.entity_to_has_tag?;
-            if bitvec_utils::is_bit_on(has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
-            }
-        })
+        let has_tag = self.entity_to_has_tag?;
+        self.source_iter
+            .find(|(e, _)| unsafe { bitvec_utils::is_bit_on(has_tag, e.id as usize) })
     }
 }
-- 
2.43.0


From 429e104778f1cc0b9e0daafd9f0a217e1cf853dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 12/20] fix: skip entities without components in entity queries

An entity without components kept the page of an earlier owner of its id, and
was yielded with the data of another entity.
---
 src/query/entity_component.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..66a65c4 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -92,9 +92,13 @@ impl Store {
             while range_end < entities.len() {
                 let inner_entity = entities[range_end];
 
+                if !self.is_valid_entity_with_archetype(inner_entity) {
+                    break;
+                }
+
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if range_page_index != page_index {
                     break;
                 }
 
-- 
2.43.0


From 134be85b51dbeaf1dfbdbf3a0ebe36901631853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 13/20] fix: skip members without components in ordered queries

They were yielded with the data of another entity, or read a page that does
not exist.
---
 src/query/ordered_component.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..0107cc3 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -88,6 +88,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { !self.has_archetype_unchecked(curr_entity) } {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -128,7 +133,8 @@ impl Store {
                     )
                 };
 
-                if (next_page_index != curr_page_index)
+                if unsafe { !self.has_archetype_unchecked(next_entity) }
+                    | (next_page_index != curr_page_index)
                     | (next_index_in_page != range_end)
                 {
                     break;
-- 
2.43.0


From cece6d8e4e7fe5729cf1d34ce0afd685b178a16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 14/20] fix: yield the own handle of each member in ordered
 queries

Inside a range of several rows the handle was taken from the range before.
---
 src/query/ordered_component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 0107cc3..9404aca 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -21,6 +21,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     entity_ranges: &'a [Range<u32>],
     range_pages: &'a [ComponentPageIterView<T>],
 
+    current_range_index: u32,
     next_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
@@ -167,6 +168,7 @@ impl Store {
 
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
+            current_range_index: 0,
             next_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
@@ -185,6 +187,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
 
         let curr_range_index = self.next_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
+        self.current_range_index = self.next_range_index;
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
 
         if self.current_index_in_page >= current_range.end - 1 {
@@ -218,7 +221,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From b4b468508e9f96c85b8ead1554b4d9d54895d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 15/20] fix: report the remaining length of query iterators

len() did not go down with the items taken and size_hint() was the default, so
standard adapters of ExactSizeIterator panicked or were wrong.
---
 src/query/component.rs         | 13 ++++++++++---
 src/query/ordered_component.rs |  6 ++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index bbf1b88..ac6deff 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -24,7 +24,7 @@ pub struct ComponentsQueryIter<'a, T: ComponentQueryAccess> {
     current_page_iter: ComponentPageIter<'a, T>,
 
     current_page_index: usize,
-    queried_entities_count: usize,
+    remaining_entities_count: usize,
 }
 
 pub struct WithEntitiesIter<'a, T: ComponentQueryAccess> {
@@ -113,7 +113,7 @@ impl Store {
             store: &self,
             page_views: &query.page_views,
             current_page_index: 0,
-            queried_entities_count,
+            remaining_entities_count: queried_entities_count,
         }
     }
 }
@@ -125,6 +125,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         let current_iter = &mut self.current_page_iter;
 
         if let Some(val) = current_iter.next() {
+            self.remaining_entities_count -= 1;
             return Some(val);
         }
 
@@ -135,17 +136,23 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
 
             self.current_page_iter = ComponentPageIter::new(*page_view);
 
+            // Pages of the query are never empty
+            self.remaining_entities_count -= 1;
             return self.current_page_iter.next();
         }
 
         self.current_page_iter = ComponentPageIter::empty();
         return None;
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.remaining_entities_count, Some(self.remaining_entities_count))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentsQueryIter<'a, T> {
     fn len(&self) -> usize {
-        self.queried_entities_count
+        self.remaining_entities_count
     }
 }
 
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 9404aca..6b68402 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -197,11 +197,17 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             self.next_offset_from_range += 1;
         }
 
+        self.len -= 1;
+
         let page_view = unsafe { self.range_pages.get_unchecked(curr_range_index) };
         let ptrs = T::add_to_ptrs(&page_view.ptrs, self.current_index_in_page as usize);
 
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> OrderedComponentQueryIter<'a, T> {
-- 
2.43.0


From 189b52764119e0acac13efe8eb27c9ed25cf3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 16/20] fix: answer is_exclude_ids for ids in any order

The search went on from where the id before was found, although the given ids
need not be sorted.
---
 src/archetype.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..1be92d8 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,10 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            let result = self_ids.binary_search(id);
+            if result.is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From 226ac72540be63b48ed1213777c7eaa2ed55f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 17/20] fix: support resource stores without capacity and
 resources without size

A resource store without capacity freed null when it grew or was dropped, and
memory without size was requested from the allocator.
---
 src/mem_utils.rs      | 21 ++++++++++++++++++---
 src/resource_store.rs |  2 +-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..62f12ad 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,12 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return;
+    }
+
+    std::alloc::dealloc(ptr as *mut u8, layout)
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..1b61b75 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -10,7 +10,7 @@ pub struct ResourceStore<T> {
 impl<T> ResourceStore<T> {
     pub fn new() -> ResourceStore<T> {
         ResourceStore {
-            elements: std::ptr::null_mut(),
+            elements: unsafe { mem_utils::alloc(0) },
             entities_container: EntitiesContainer::new(0),
         }
     }
-- 
2.43.0


From 615eeaa2a4c5abb1832239d1964aae8545d3598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 18/20] fix: free the elements of a dropped resource store

Their memory was leaked.
---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 1b61b75..b78178b 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -88,5 +88,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 451e42cf412eb84173ce128fdd4c6c76f195e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 19/20] fix: do not read rows of entities without components in
 ordered queries

---
 src/query/ordered_component.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 6b68402..1702917 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -127,6 +127,10 @@ impl Store {
 
             let mut next_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
             while next_entity != Entity::NULL_ID {
+                if unsafe { !self.has_archetype_unchecked(next_entity) } {
+                    break;
+                }
+
                 let (next_page_index, next_index_in_page) = unsafe {
                     (
                         self.get_page_index_unchecked(next_entity),
@@ -134,10 +138,7 @@ impl Store {
                     )
                 };
 
-                if unsafe { !self.has_archetype_unchecked(next_entity) }
-                    | (next_page_index != curr_page_index)
-                    | (next_index_in_page != range_end)
-                {
+                if (next_page_index != curr_page_index) | (next_index_in_page != range_end) {
                     break;
                 }
 
-- 
2.43.0


From 1583d687aa7d27d8e7e1d98b4297a178bcfedd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 20/20] fix: reserve only what an archetype adds to its builder

---
 src/archetype_builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index bac7741..4329948 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -42,8 +42,7 @@ impl ArchetypeBuilder {
     }
 
     pub fn include_archetype(&mut self, archetype: &Archetype) -> &mut Self {
-        self.component_types
-            .reserve(self.component_types.capacity() + archetype.component_count());
+        self.component_types.reserve(archetype.component_count());
 
         for comp in archetype.components_iter() {
             if !self.component_types.contains(&comp) {
-- 
2.43.0

