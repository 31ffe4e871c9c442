From 8378476d3f65eec3648fd434636428c55117455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:30 +0000
Subject: [PATCH 01/13] fix: remove_entity leaves the entity alone unless the
 group matches exactly

The components were read out of the entity's row without checking that the
group is the entity's component set, which read past the row (or lost the
remaining components) for every other group.
---
 src/registry/registry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..250200c 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,15 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        // The group must consist of exactly the components the entity has.
+        if !G::DESCRIPTOR.is_valid()
+            || G::DESCRIPTOR.len() != archetype.descriptor().len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From 6763ffc5fdc115d218ae3590e11b9629c55a7ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 02/13] fix: a component set has one archetype id however it is
 built

A component group hashed its 14 descriptor slots including the padding, while
adding or removing a component hashed the actual components only, so the same
component set ended up in two archetypes and exact iteration missed entities.
---
 src/descriptors/component_group_descriptor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..de5d250 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,9 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the first N descriptors are part of the archetype, the remainder is padding.
+        let (components, _) = sorted_descriptors.split_at(N);
+        let id = ArchetypeDescriptor::compute_archetype_id(components);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From 4248a1e94a6dde7fc8174cfa37a68ac41881ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:01 +0000
Subject: [PATCH 03/13] fix: adding the 14th component and removing from 14
 components no longer panic

Shifting the component descriptors ran one slot past the end of the array.
---
 src/descriptors/archetype_descriptor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..e06b4fe 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -137,7 +137,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -159,9 +159,10 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                for i in found_index..self.len() as usize - 1 {
                     v.components[i] = self.components[i + 1].clone();
                 }
+                v.components[self.len() as usize - 1] = ComponentDescriptor::INVALID;
 
                 v.len -= 1;
                 v.archetype_id =
-- 
2.43.0


From 6ce982e01d6e728d713ef902beecdefdc057fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:26 +0000
Subject: [PATCH 04/13] fix: groups repeating a component type are refused by
 queries and iterators

The invalid descriptor of such a group has no components, so it counted as a
subset of every archetype: has_components returned true, get_components built
references from null pointers and iterator construction underflowed.
---
 .../iterators/archetype_iter.rs               |  2 +-
 .../iterators/archetype_iter_mut.rs           |  2 +-
 .../iterators/filter_archetype_iter.rs        |  2 +-
 .../iterators/filter_archetype_iter_mut.rs    |  2 +-
 src/registry/registry.rs                      | 21 +++++++++++--------
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 250200c..03d4558 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -127,9 +127,10 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked(entry.archetype_index()) };
-        archetype
-            .descriptor()
-            .contains_subset(G::DESCRIPTOR.archetype())
+        G::DESCRIPTOR.is_valid()
+            && archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
     }
 
     /// Returns a reference to the specified component if the entity has it.
@@ -162,9 +163,10 @@ impl Registry {
         };
         unsafe {
             let archetype = self.archetypes.get_unchecked(entry.archetype_index());
-            if !archetype
-                .descriptor()
-                .contains_subset(G::DESCRIPTOR.archetype())
+            if !G::DESCRIPTOR.is_valid()
+                || !archetype
+                    .descriptor()
+                    .contains_subset(G::DESCRIPTOR.archetype())
             {
                 return None;
             }
@@ -203,9 +205,10 @@ impl Registry {
         };
         unsafe {
             let archetype = self.archetypes.get_unchecked_mut(entry.archetype_index());
-            if !archetype
-                .descriptor()
-                .contains_subset(G::DESCRIPTOR.archetype())
+            if !G::DESCRIPTOR.is_valid()
+                || !archetype
+                    .descriptor()
+                    .contains_subset(G::DESCRIPTOR.archetype())
             {
                 return None;
             }
-- 
2.43.0


From 97f1ce89d31292ae7dc7a2f7e5cb6bab5e93a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 05/13] fix: growing an archetype past 2^23 entities keeps its
 storage

Doubling 2^23 rows exceeds the maximum by one, which released the storage while
it was in use. Grow to the maximum instead.
---
 src/archetype/data_access.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..a548a7c 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -505,7 +505,12 @@ impl Archetype {
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
             } else {
-                self.capacity() as usize
+                assert!(self.capacity() < MAX_ENTITIES_PER_ARCHETYPE);
+                // Double the capacity, but never beyond the maximum.
+                core::cmp::min(
+                    self.capacity(),
+                    MAX_ENTITIES_PER_ARCHETYPE - self.capacity(),
+                ) as usize
             };
             self.resize_capacity(additional_capacity as isize);
         }
-- 
2.43.0


From e37adb18d888e5f0833c8899244f81c3655ce7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 06/13] fix: free entity slots are reused after the entity
 limit was reached

Once 2^24 - 1 slots existed every creation was refused, even if all entities
had been destroyed.
---
 src/entity_registry/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..ad4c52f 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -30,11 +30,12 @@ impl EntityRegistry {
     pub const MAX_ENTITY_COUNT: usize = crate::MAX_ENTITY_HANDLE_VALUE as usize;
 
     pub fn can_register_new_entity(&self) -> bool {
-        self.entities.len() < Self::MAX_ENTITY_COUNT
+        self.next_free_slot != IndexInArchetype::INVALID_VALUE
+            || self.entities.len() < Self::MAX_ENTITY_COUNT
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
-- 
2.43.0


From 8e9e0f43d4a63fca885cb4a7baa97545ec3acd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 07/13] fix: creating an entity in a full archetype returns Err
 instead of panicking

---
 src/registry/registry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 03d4558..5f1e0bb 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,7 +29,10 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
-        let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
+        let index_in_archetype = match IndexInArchetype::new(archetype.len()) {
+            Some(v) => v,
+            None => return Err(components),
+        };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
-- 
2.43.0


From 330a44217cbbb18682fd0ef34ee1e8dfda930c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:58 +0000
Subject: [PATCH 08/13] fix: component sets with equal archetype ids are kept
 apart

Archetype ids are 32-bit hashes. Two sets of the same size with equal ids shared
one archetype, so components of one type were accessed as another.
---
 src/archetype_registry/mod.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..63acec3 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -68,15 +68,34 @@ impl Default for ArchetypeRegistry {
 }
 
 impl ArchetypeRegistry {
+    /// Searches the mappings with the descriptor's length for the given (valid) descriptor.
+    /// Different component sets may have equal archetype ids, so the components are compared too.
+    fn search_sorted_mappings(
+        &self,
+        archetype_descriptor: &ArchetypeDescriptor,
+    ) -> Result<usize, usize> {
+        let mappings = &self.sorted_mappings[archetype_descriptor.len() as usize - 1];
+        let id = archetype_descriptor.archetype_id();
+        let mut index = mappings.partition_point(|e| e.id < id);
+        while index < mappings.len() && mappings[index].id == id {
+            if self.archetypes[mappings[index].archetype_index as usize]
+                .descriptor()
+                .contains_subset(archetype_descriptor)
+            {
+                return Ok(index);
+            }
+            index += 1;
+        }
+        Err(index)
+    }
+
     #[allow(dead_code)]
     pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
         let len = archetype_descriptor.len() as usize;
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_sorted_mappings(archetype_descriptor) {
             Ok(found_index) => Some(
                 &self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -94,9 +113,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_sorted_mappings(archetype_descriptor) {
             Ok(found_index) => Some(
                 &mut self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -169,9 +186,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        return match self.search_sorted_mappings(archetype_descriptor) {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
                 &mut self.archetypes
-- 
2.43.0


From b2f6a4ec650c63c75622a2cc42f402e764b0143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:59 +0000
Subject: [PATCH 09/13] fix: a component set whose hash equals the invalid
 archetype id is usable

---
 src/descriptors/archetype_descriptor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index e06b4fe..e489c08 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let id = ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())));
+        if !id.is_valid() {
+            // The combination itself is valid, so do not let its hash mark it as invalid.
+            return ArchetypeId::from_u32(0);
+        }
+        id
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From a24b005f4da91a103ae536d4105acca4a0145a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 10/13] fix: archetypes never pass zero-sized layouts to the
 allocator

Zero-sized components were allocated, resized and released with zero-sized
layouts, and an archetype without capacity resized null pointers and built
slices from them. Use dangling pointers for columns without storage.
---
 src/archetype/data_access.rs | 31 +++++++++++++++++++++++--------
 src/archetype/mod.rs         | 13 ++++++++++++-
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index a548a7c..62535a9 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -2,10 +2,19 @@ use super::Archetype;
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
+use alloc::alloc::{alloc, dealloc, realloc, Layout};
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
 
+/// Resizes a block of memory, or allocates it if there is none yet (i.e. its layout has no size).
+unsafe fn resize_block(block: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
+    if layout.size() == 0 {
+        alloc(Layout::from_size_align_unchecked(new_size, layout.align()))
+    } else {
+        realloc(block, layout, new_size)
+    }
+}
+
 impl Archetype {
     /// Returns a reference to a specific component.
     /// # Safety:
@@ -430,7 +439,7 @@ impl Archetype {
             size_of::<Entity>() * old_capacity as usize,
             align_of::<Entity>(),
         );
-        self.entity_associations = realloc(
+        self.entity_associations = resize_block(
             self.entity_associations as *mut u8,
             layout,
             size_of::<Entity>() * new_capacity,
@@ -441,11 +450,14 @@ impl Archetype {
             .enumerate()
         {
             let component_type = &self.descriptor.components()[index];
+            if component_type.size == 0 {
+                continue;
+            }
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * old_capacity as usize,
                 component_type.align as usize,
             );
-            *pointer = realloc(
+            *pointer = resize_block(
                 *pointer,
                 layout,
                 component_type.size as usize * new_capacity,
@@ -459,27 +471,30 @@ impl Archetype {
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
     pub(super) unsafe fn dealloc(&mut self) {
+        if self.capacity == 0 {
+            return;
+        }
         for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
             .iter_mut()
             .enumerate()
         {
-            if pointer.is_null() {
-                return;
-            }
             let component_type = &self.descriptor.components()[index];
+            if component_type.size == 0 {
+                continue;
+            }
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
             );
             dealloc(*pointer, layout);
-            *pointer = core::ptr::null_mut();
+            *pointer = super::dangling_column(component_type);
         }
         let layout = Layout::from_size_align_unchecked(
             size_of::<Entity>() * self.capacity() as usize,
             align_of::<Entity>(),
         );
         dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        self.entity_associations = core::ptr::NonNull::dangling().as_ptr();
         self.capacity = 0;
     }
 
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..4c16b40 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -20,6 +20,11 @@ pub struct Archetype {
 unsafe impl Send for Archetype {}
 unsafe impl Sync for Archetype {}
 
+/// The pointer of a column without storage: either zero-sized components or no capacity.
+fn dangling_column(component: &ComponentDescriptor) -> *mut u8 {
+    component.align as usize as *mut u8
+}
+
 impl Archetype {
     /// Creates an archetype with the default amount of memory allocated for it.
     /// Panics if the provided archetype descriptor is invalid.
@@ -42,10 +47,13 @@ impl Archetype {
         let mut archetype = Self {
             descriptor: archetype_descriptor.clone(),
             pointers: [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY],
-            entity_associations: core::ptr::null_mut(),
+            entity_associations: core::ptr::NonNull::dangling().as_ptr(),
             entity_count: 0,
             capacity: 0,
         };
+        for (index, component) in archetype.descriptor.components().iter().enumerate() {
+            archetype.pointers[index] = dangling_column(component);
+        }
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
             unsafe {
@@ -57,6 +65,9 @@ impl Archetype {
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
+                    if component.size == 0 {
+                        continue;
+                    }
                     let layout = Layout::from_size_align_unchecked(
                         component.size as usize * capacity as usize,
                         component.align as usize,
-- 
2.43.0


From eaedc0c2778f0d853a662431f7444ba84bda8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 11/13] fix: a panicking component destructor no longer leaves
 a dropped entity in the registry

destroy_entity dropped the components before it updated the entity table,
so when a destructor panicked the handle stayed valid, the row moved into
its place was attributed to the wrong entity, and its values were dropped
again later.
---
 src/archetype/data_access.rs | 5 +++--
 src/registry/registry.rs     | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 62535a9..64c092c 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -323,13 +323,14 @@ impl Archetype {
         debug_assert!(index < self.len());
         if index == self.len() - 1 {
             // Is the last one, so just drop it.
-            self.drop_entity(index);
+            // The entity must not be dropped again if dropping it panics, so forget it first.
             self.entity_count -= 1;
+            self.drop_entity(index);
             false
         } else {
             self.swap_entities(index, self.len() - 1);
-            self.drop_entity(self.len() - 1);
             self.entity_count -= 1;
+            self.drop_entity(self.len());
             true
         }
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 5f1e0bb..5ccb789 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -51,7 +51,7 @@ impl Registry {
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
-            if archetype.swap_drop_unchecked(index_in_archetype.value()) {
+            if archetype.swap_to_last_unchecked(index_in_archetype.value()) {
                 // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
                 // We retrieve the entity handle using the metadata, which is now at the old entity's position.
                 let swapped_entity = *archetype
@@ -62,9 +62,11 @@ impl Registry {
                     .unwrap()
                     .set_index_in_archetype(index_in_archetype);
             }
+            let _v = self.entities.destroy_entity(entity);
+            debug_assert!(_v);
+            // Dropping the components comes last, as it may panic.
+            archetype.swap_drop_unchecked(archetype.len() - 1);
         };
-        let _v = self.entities.destroy_entity(entity);
-        debug_assert!(_v);
         true
     }
 
-- 
2.43.0


From 3dfa9bf9ff65259f105fa9889591b1722b1216e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 12/13] fix: changing a component of an archetype index just
 past the end returns None instead of panicking

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 63acec3..14c88da 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -130,7 +130,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -158,7 +158,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From 14f6cf1755b791cbadb9cb19bc4efe66c17111f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:07 +0000
Subject: [PATCH 13/13] fix: keep the archetype droppable when resizing its
 storage fails

Resizing reallocates column by column. When one of the requests is refused, the
columns that were resized before no longer match the capacity, and the block that
was refused is null, so dropping the archetype used null pointers and released blocks
with the wrong layout. The archetype now holds nothing until all columns are resized.
---
 src/archetype/data_access.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 64c092c..c16f92f 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -435,6 +435,9 @@ impl Archetype {
             return;
         }
         let new_capacity = new_capacity as usize;
+        // Should resizing fail halfway, the archetype must not be considered to hold anything when dropped.
+        let entity_count = core::mem::replace(&mut self.entity_count, 0);
+        self.capacity = 0;
 
         let layout = Layout::from_size_align_unchecked(
             size_of::<Entity>() * old_capacity as usize,
@@ -466,6 +469,7 @@ impl Archetype {
             assert_ne!(*pointer, core::ptr::null_mut());
         }
         self.capacity = new_capacity as u32;
+        self.entity_count = entity_count;
     }
 
     /// Deallocates the backing memory and sets capacity to zero.
-- 
2.43.0

