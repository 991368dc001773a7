From 55818f8b908b1fb9e33f87f9ba926a1c5d34dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:56 +0000
Subject: [PATCH 01/25] fix: read the vertical ink scale from its own property

---
 src/one/property_set/ink_container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property_set/ink_container.rs b/src/one/property_set/ink_container.rs
index ce4e675..11102dd 100644
--- a/src/one/property_set/ink_container.rs
+++ b/src/one/property_set/ink_container.rs
@@ -25,7 +25,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let offset_from_parent_vert = simple::parse_f32(PropertyType::OffsetFromParentVert, object)?;
     let ink_data = ObjectReference::parse(PropertyType::InkData, object)?;
     let ink_scaling_x = simple::parse_f32(PropertyType::InkScalingX, object)?;
-    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingX, object)?;
+    let ink_scaling_y = simple::parse_f32(PropertyType::InkScalingY, object)?;
 
     let data = Data {
         offset_from_parent_horiz,
-- 
2.43.0


From 27cea429edbbd0e8b079fab1b14de07147a3c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:01 +0000
Subject: [PATCH 02/25] fix: do not swap a stroke's pen width and height

---
 src/one/property_set/stroke_properties_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property_set/stroke_properties_node.rs b/src/one/property_set/stroke_properties_node.rs
index 3dc46e1..6715e64 100644
--- a/src/one/property_set/stroke_properties_node.rs
+++ b/src/one/property_set/stroke_properties_node.rs
@@ -29,10 +29,10 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     let pen_tip = simple::parse_u8(PropertyType::InkPenTip, object)?;
     let raster_operation = simple::parse_u8(PropertyType::InkRasterOperation, object)?;
     let transparency = simple::parse_u8(PropertyType::InkTransparency, object)?;
-    let ink_width = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
+    let ink_height = simple::parse_f32(PropertyType::InkHeight, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no height".into())
     })?;
-    let ink_height = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
+    let ink_width = simple::parse_f32(PropertyType::InkWidth, object)?.ok_or_else(|| {
         ErrorKind::MalformedOneNoteFileData("ink stroke properties has no width".into())
     })?;
     let color = simple::parse_u32(PropertyType::InkColor, object)?;
-- 
2.43.0


From 710ca48f6819d0d8c3da4314074de7c2e3c0f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 03/25] fix: report an empty number list format instead of
 panicking

---
 src/one/property_set/number_list_node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/one/property_set/number_list_node.rs b/src/one/property_set/number_list_node.rs
index 0649874..4d60830 100644
--- a/src/one/property_set/number_list_node.rs
+++ b/src/one/property_set/number_list_node.rs
@@ -37,6 +37,7 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
         simple::parse_u32(PropertyType::ListRestart, object)?.map(|value| value as i32);
     let list_format = simple::parse_vec_u16(PropertyType::NumberListFormat, object)?
         .map(parse_list_format)
+        .transpose()?
         .ok_or_else(|| {
             ErrorKind::MalformedOneNoteFileData("number list has no list format".into())
         })?;
@@ -63,8 +64,13 @@ pub(crate) fn parse(object: &Object) -> Result<Data> {
     Ok(data)
 }
 
-fn parse_list_format(data: Vec<u16>) -> Vec<char> {
-    decode_utf16(data[1..].iter().copied())
+fn parse_list_format(data: Vec<u16>) -> Result<Vec<char>> {
+    // The first value is the length of the format
+    let (_, format) = data.split_first().ok_or_else(|| {
+        ErrorKind::MalformedOneNoteFileData("number list has an empty list format".into())
+    })?;
+
+    Ok(decode_utf16(format.iter().copied())
         .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-        .collect()
+        .collect())
 }
-- 
2.43.0


From 9d295e910f31ec568f5341ef6bce331f7d5b00e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 04/25] fix: report a missing embedded ink object instead of
 panicking

---
 src/onenote/rich_text.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/onenote/rich_text.rs b/src/onenote/rich_text.rs
index 6f8e008..9cd2ea4 100644
--- a/src/onenote/rich_text.rs
+++ b/src/onenote/rich_text.rs
@@ -453,12 +453,18 @@ pub(crate) fn parse_rich_text(content_id: ExGuid, space: &ObjectSpace) -> Result
             }
             None => {
                 if !data.text_run_data_object.is_empty() {
-                    return parse_embedded_ink_data(
-                        data.text_run_data_object[i - objects_without_ref],
-                        space,
-                        embedded_data,
-                    )
-                    .map(|container| Some(EmbeddedObject::Ink(container)));
+                    let embedded_id = data
+                        .text_run_data_object
+                        .get(i - objects_without_ref)
+                        .copied()
+                        .ok_or_else(|| {
+                            ErrorKind::MalformedOneNoteFileData(
+                                "embedded object has no ink data".into(),
+                            )
+                        })?;
+
+                    return parse_embedded_ink_data(embedded_id, space, embedded_data)
+                        .map(|container| Some(EmbeddedObject::Ink(container)));
                 }
 
                 Ok(None)
-- 
2.43.0


From 6bba05686000ea30b809066a6005334846acfcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 05/25] fix: resolve each note tag's own definition

---
 src/one/property_set/note_tag_container.rs | 22 +++++++++++++++-------
 src/onestore/mapping_table.rs              | 15 +++++++++++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/one/property_set/note_tag_container.rs b/src/one/property_set/note_tag_container.rs
index 028ac11..1cff4c3 100644
--- a/src/one/property_set/note_tag_container.rs
+++ b/src/one/property_set/note_tag_container.rs
@@ -37,10 +37,14 @@ impl Data {
             None => return Ok(None),
         };
 
+        // The references of all note tags are stored one after another
+        let mut offset = ObjectReference::get_offset(PropertyType::NoteTags, object)?;
+
         let data = prop_sets
             .iter()
             .map(|props| {
-                let object = Self::parse_object(object, prop_id, props)?;
+                let object = Self::parse_object(object, prop_id, props, offset)?;
+                offset += ObjectReference::count_references(props.values());
                 let data = Self::parse_data(object)?;
 
                 Ok(data)
@@ -75,30 +79,34 @@ impl Data {
         object: &'a Object,
         id: PropertyId,
         props: &PropertySet,
+        offset: usize,
     ) -> Result<Object<'a>> {
+        let object_ids = Self::get_object_ids(props, object, offset);
+        let mapping = object.mapping.objects_at(&object_ids, offset);
+
         Ok(Object {
             context_id: object.context_id,
             jc_id: JcId(id.value()),
             props: ObjectPropSet {
-                object_ids: Self::get_object_ids(props, object)?,
+                object_ids,
                 object_space_ids: Self::get_object_space_ids(props, object)?,
                 context_ids: vec![],
                 properties: props.clone(),
             },
             file_data: None,
-            mapping: object.mapping.clone(),
+            mapping,
         })
     }
 
-    fn get_object_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
-        Ok(object
+    fn get_object_ids(props: &PropertySet, object: &Object, offset: usize) -> Vec<CompactId> {
+        object
             .props
             .object_ids
             .iter()
-            .skip(ObjectReference::get_offset(PropertyType::NoteTags, object)?)
+            .skip(offset)
             .take(ObjectReference::count_references(props.values()))
             .copied()
-            .collect())
+            .collect()
     }
 
     fn get_object_space_ids(props: &PropertySet, object: &Object) -> Result<Vec<CompactId>> {
diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index de38f73..636ebdd 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -52,6 +52,21 @@ impl MappingTable {
         self.get(index, cid, &self.object_spaces)
     }
 
+    /// Build the mapping table for a nested property set whose object IDs start at `offset`.
+    pub(crate) fn objects_at(&self, ids: &[CompactId], offset: usize) -> MappingTable {
+        let mut objects: HashMap<CompactId, Vec<(usize, ExGuid)>> = HashMap::new();
+        for (i, cid) in ids.iter().enumerate() {
+            if let Some(id) = self.get_object(offset + i, *cid) {
+                objects.entry(*cid).or_default().push((i, id));
+            }
+        }
+
+        MappingTable {
+            objects,
+            object_spaces: self.object_spaces.clone(),
+        }
+    }
+
     fn get<T: Copy>(
         &self,
         index: usize,
-- 
2.43.0


From 620e104074f5f16dc2645db196c709978a280427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 06/25] fix: count the references in nested property sets

---
 src/one/property/object_reference.rs       | 1 +
 src/one/property/object_space_reference.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 9d63d7a..3acf2f7 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -80,6 +80,7 @@ impl ObjectReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 0728dea..60a8182 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -61,6 +61,7 @@ impl ObjectSpaceReference {
                     .iter()
                     .map(|set| Self::count_references(set.values()))
                     .sum(),
+                PropertyValue::PropertySet(set) => Self::count_references(set.values()),
                 _ => 0,
             })
             .sum()
-- 
2.43.0


From cc1aa267cf282321ef0ffa3f0f8381322e52fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 07/25] fix: resolve object space references at their own
 position

---
 src/one/property/object_space_reference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 60a8182..25b4e4d 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -39,7 +39,7 @@ impl ObjectSpaceReference {
             .skip(offset)
             .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index, id, object))
+            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
             .collect();
 
         Ok(Some(object_space_ids))
-- 
2.43.0


From a3cff2e5dc2c230a5745878388eb22e36cda86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 08/25] fix: report references that cannot be resolved instead
 of dropping them

---
 src/one/property/object_reference.rs       | 25 +++++++++++++------
 src/one/property/object_space_reference.rs | 29 ++++++++++++++--------
 src/onestore/types/compact_id.rs           |  5 ++++
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/one/property/object_reference.rs b/src/one/property/object_reference.rs
index 3acf2f7..4d51937 100644
--- a/src/one/property/object_reference.rs
+++ b/src/one/property/object_reference.rs
@@ -30,7 +30,7 @@ impl ObjectReference {
                 ErrorKind::MalformedOneNoteFileData("object id index corrupt".into())
             })?;
 
-        Ok(Self::resolve_id(index, id, object))
+        Self::resolve_id(index, id, object)
     }
 
     pub(crate) fn parse_vec(
@@ -50,16 +50,19 @@ impl ObjectReference {
         // Determine offset for the property for which we want to look up the object reference
         let offset = Self::get_offset(prop_type, object)?;
 
-        let references = object.props().object_ids();
+        let references = object
+            .props()
+            .object_ids()
+            .get(offset..)
+            .and_then(|ids| ids.get(..count as usize))
+            .ok_or_else(|| ErrorKind::MalformedOneNoteFileData("object id index corrupt".into()))?;
 
         // Look up the object references by offset/count and resolve them
         let object_ids = references
             .iter()
-            .skip(offset)
-            .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
-            .collect();
+            .filter_map(|(index, id)| Self::resolve_id(index + offset, id, object).transpose())
+            .collect::<Result<_>>()?;
 
         Ok(Some(object_ids))
     }
@@ -86,7 +89,13 @@ impl ObjectReference {
             .sum()
     }
 
-    fn resolve_id(index: usize, id: &CompactId, object: &Object) -> Option<ExGuid> {
-        object.mapping().get_object(index, *id)
+    fn resolve_id(index: usize, id: &CompactId, object: &Object) -> Result<Option<ExGuid>> {
+        match object.mapping().get_object(index, *id) {
+            Some(id) => Ok(Some(id)),
+            None if id.is_null() => Ok(None),
+            None => {
+                Err(ErrorKind::MalformedOneNoteFileData("id not defined in mapping".into()).into())
+            }
+        }
     }
 }
diff --git a/src/one/property/object_space_reference.rs b/src/one/property/object_space_reference.rs
index 25b4e4d..08f4525 100644
--- a/src/one/property/object_space_reference.rs
+++ b/src/one/property/object_space_reference.rs
@@ -31,16 +31,21 @@ impl ObjectSpaceReference {
         // reference
         let offset = Self::get_offset(prop_type, object)?;
 
-        let references = object.props().object_space_ids();
+        let references = object
+            .props()
+            .object_space_ids()
+            .get(offset..)
+            .and_then(|ids| ids.get(..count as usize))
+            .ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("object space id index corrupt".into())
+            })?;
 
         // Look up the object space references by offset/count and resolve them
         let object_space_ids = references
             .iter()
-            .skip(offset)
-            .take(count as usize)
             .enumerate()
-            .flat_map(|(index, id)| Self::resolve_id(index + offset, id, object))
-            .collect();
+            .filter_map(|(index, id)| Self::resolve_id(index + offset, id, object).transpose())
+            .collect::<Result<_>>()?;
 
         Ok(Some(object_space_ids))
     }
@@ -67,11 +72,13 @@ impl ObjectSpaceReference {
             .sum()
     }
 
-    fn resolve_id(index: usize, id: &CompactId, object: &Object) -> Result<CellId> {
-        object
-            .mapping()
-            .get_object_space(index, *id)
-            .ok_or_else(|| ErrorKind::MalformedOneNoteFileData("id not defined in mapping".into()))
-            .map_err(|e| e.into())
+    fn resolve_id(index: usize, id: &CompactId, object: &Object) -> Result<Option<CellId>> {
+        match object.mapping().get_object_space(index, *id) {
+            Some(id) => Ok(Some(id)),
+            None if id.is_null() => Ok(None),
+            None => {
+                Err(ErrorKind::MalformedOneNoteFileData("id not defined in mapping".into()).into())
+            }
+        }
     }
 }
diff --git a/src/onestore/types/compact_id.rs b/src/onestore/types/compact_id.rs
index 12e89c9..3adf208 100644
--- a/src/onestore/types/compact_id.rs
+++ b/src/onestore/types/compact_id.rs
@@ -21,6 +21,11 @@ impl CompactId {
 
         Ok(CompactId { n, guid_index })
     }
+
+    /// Whether this is the null reference.
+    pub(crate) fn is_null(&self) -> bool {
+        self.n == 0 && self.guid_index == 0
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9a4d484cfe4468d267f014ec350abcd212cec8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 09/25] fix: keep the roots of newer revisions

---
 src/onestore/revision.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 80b7b4c..4d26a81 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -58,13 +58,12 @@ impl<'a, 'b> Revision<'a> {
             return Ok(base_rev);
         }
 
-        roots.extend(
-            revision_manifest
-                .root_declare
-                .iter()
-                .map(|root| Ok((RevisionRole::parse(root.root_id)?, root.object_id)))
-                .collect::<Result<Vec<_>>>()?,
-        );
+        // Revisions are visited from the newest to the oldest: do not replace newer roots
+        for root in revision_manifest.root_declare.iter() {
+            roots
+                .entry(RevisionRole::parse(root.root_id)?)
+                .or_insert(root.object_id);
+        }
 
         for group_id in revision_manifest.group_references.iter() {
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
-- 
2.43.0


From 74ee0a98cc7ef66c171cd20e643a371c883ce21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 10/25] fix: detect cycles in the chain of base revisions

---
 src/onestore/object_space.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 18104a2..edc3a2b 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,7 +7,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
@@ -81,8 +81,16 @@ impl<'a, 'b> ObjectSpace<'a> {
         let mut roots = HashMap::new();
 
         let mut rev_id = Some(revision_manifest_id);
+        let mut visited = HashSet::new();
 
         while let Some(revision_manifest_id) = rev_id {
+            if !visited.insert(revision_manifest_id) {
+                return Err(ErrorKind::MalformedOneStoreData(
+                    "revision is its own base revision".into(),
+                )
+                .into());
+            }
+
             let base_rev_id = Revision::parse(
                 revision_manifest_id,
                 context_id,
-- 
2.43.0


From 7e7bc49c9f74785977479961b069e52f51f8d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 11/25] fix: read the page size as the four byte value it is
 stored as

---
 src/one/property/page_size.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/one/property/page_size.rs b/src/one/property/page_size.rs
index 2caa930..ad4e0bd 100644
--- a/src/one/property/page_size.rs
+++ b/src/one/property/page_size.rs
@@ -31,8 +31,8 @@ pub(crate) enum PageSize {
 impl PageSize {
     pub(crate) fn parse(prop_type: PropertyType, object: &Object) -> Result<Option<PageSize>> {
         let value = match object.props().get(prop_type) {
-            Some(value) => value.to_u8().ok_or_else(|| {
-                ErrorKind::MalformedOneNoteFileData("page size is not a u8".into())
+            Some(value) => value.to_u32().ok_or_else(|| {
+                ErrorKind::MalformedOneNoteFileData("page size is not a u32".into())
             })?,
             None => return Ok(None),
         };
-- 
2.43.0


From 835d3cc5e013eac250c7b44cb31b9f46600eae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:02 +0000
Subject: [PATCH 12/25] fix: read data element fragments up to their end

---
 src/fsshttpb/data_element/data_element_fragment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsshttpb/data_element/data_element_fragment.rs b/src/fsshttpb/data_element/data_element_fragment.rs
index c2f89d8..eb350f6 100644
--- a/src/fsshttpb/data_element/data_element_fragment.rs
+++ b/src/fsshttpb/data_element/data_element_fragment.rs
@@ -41,7 +41,9 @@ impl DataElement {
         let offset = CompactU64::parse(reader)?.value();
         let length = CompactU64::parse(reader)?.value();
 
-        let data = reader.read(size as usize)?.to_vec();
+        let data = reader.read(length as usize)?.to_vec();
+
+        ObjectHeader::try_parse_end_8(reader, ObjectType::DataElement)?;
 
         let chunk_reference = DataElementFragmentChunkReference { offset, length };
         let fragment = DataElementFragment {
-- 
2.43.0


From b4ba756865e233fa182be82dc41c675c0cd75123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 13/25] fix: read object group metadata blocks up to their end

---
 src/fsshttpb/data/stream_object.rs        | 14 ++++++++++++++
 src/fsshttpb/data_element/object_group.rs |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fsshttpb/data/stream_object.rs b/src/fsshttpb/data/stream_object.rs
index 303b0e2..a3072c4 100644
--- a/src/fsshttpb/data/stream_object.rs
+++ b/src/fsshttpb/data/stream_object.rs
@@ -205,6 +205,20 @@ impl ObjectHeader {
         Ok(data & 0b11 == 0x1 && data >> 2 == expected)
     }
 
+    /// Check for a 16-bit stream object header end without consuming it.
+    pub(crate) fn has_end_16(reader: Reader, object_type: ObjectType) -> Result<bool> {
+        let data = reader
+            .bytes()
+            .first_chunk()
+            .ok_or(ErrorKind::UnexpectedEof)?;
+        let data = u16::from_le_bytes(*data);
+        let expected = object_type.to_u16().ok_or_else(|| {
+            ErrorKind::MalformedFssHttpBData(format!("invalid object type: {object_type:?}").into())
+        })?;
+
+        Ok(data & 0b11 == 0x3 && data >> 2 == expected)
+    }
+
     fn try_parse_start(
         reader: Reader,
         object_type: ObjectType,
diff --git a/src/fsshttpb/data_element/object_group.rs b/src/fsshttpb/data_element/object_group.rs
index 5623dd6..c267e56 100644
--- a/src/fsshttpb/data_element/object_group.rs
+++ b/src/fsshttpb/data_element/object_group.rs
@@ -275,7 +275,7 @@ impl DataElement {
         let mut declarations = vec![];
 
         loop {
-            if ObjectHeader::has_end_8(reader, ObjectType::ObjectGroupMetadataBlock)? {
+            if ObjectHeader::has_end_16(reader, ObjectType::ObjectGroupMetadataBlock)? {
                 break;
             }
 
@@ -287,7 +287,7 @@ impl DataElement {
             })
         }
 
-        ObjectHeader::try_parse_end_8(reader, ObjectType::ObjectGroupMetadataBlock)?;
+        ObjectHeader::try_parse_end_16(reader, ObjectType::ObjectGroupMetadataBlock)?;
 
         Ok(declarations)
     }
-- 
2.43.0


From bf50dec1dca253a5d8c68869e88da644bbfbe5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 14/25] fix: pick storage manifests, indexes and mappings in a
 fixed order

---
 src/fsshttpb/data/cell_id.rs               |  2 +-
 src/fsshttpb/data/exguid.rs                |  2 +-
 src/fsshttpb/data_element/mod.rs           |  6 +++---
 src/fsshttpb/data_element/storage_index.rs | 10 +++++-----
 src/shared/guid.rs                         |  2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fsshttpb/data/cell_id.rs b/src/fsshttpb/data/cell_id.rs
index d28883d..e9a2f1d 100644
--- a/src/fsshttpb/data/cell_id.rs
+++ b/src/fsshttpb/data/cell_id.rs
@@ -9,7 +9,7 @@ use crate::fsshttpb::data::exguid::ExGuid;
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.10]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/75bf8297-ef9c-458a-95a3-ad6265bfa864
 /// [\[MS-FSSHTTPB\] 2.2.1.11]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/d3f4d22d-6fb4-4032-8587-f3eb9c256e45
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct CellId(pub ExGuid, pub ExGuid);
 
 impl CellId {
diff --git a/src/fsshttpb/data/exguid.rs b/src/fsshttpb/data/exguid.rs
index 2e19ce5..c1cb262 100644
--- a/src/fsshttpb/data/exguid.rs
+++ b/src/fsshttpb/data/exguid.rs
@@ -9,7 +9,7 @@ use std::fmt;
 /// See [\[MS-FSSHTTPB\] 2.2.1.7].
 ///
 /// [\[MS-FSSHTTPB\] 2.2.1.7]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/bff58e9f-8222-4fbb-b112-5826d5febedd
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct ExGuid {
     pub guid: Guid,
     pub value: u32,
diff --git a/src/fsshttpb/data_element/mod.rs b/src/fsshttpb/data_element/mod.rs
index 010553a..28c8934 100644
--- a/src/fsshttpb/data_element/mod.rs
+++ b/src/fsshttpb/data_element/mod.rs
@@ -11,7 +11,7 @@ use crate::fsshttpb::data_element::object_group::ObjectGroup;
 use crate::fsshttpb::data_element::revision_manifest::RevisionManifest;
 use crate::fsshttpb::data_element::storage_index::StorageIndex;
 use crate::fsshttpb::data_element::storage_manifest::StorageManifest;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 
 pub(crate) mod cell_manifest;
@@ -29,8 +29,8 @@ pub(crate) mod storage_manifest;
 /// [\[MS-FSSHTTPB\] 2.2.1.12]: https://docs.microsoft.com/en-us/openspecs/sharepoint_protocols/ms-fsshttpb/99a25464-99b5-4262-a964-baabed2170eb
 #[derive(Debug)]
 pub(crate) struct DataElementPackage {
-    pub(crate) storage_indexes: HashMap<ExGuid, StorageIndex>,
-    pub(crate) storage_manifests: HashMap<ExGuid, StorageManifest>,
+    pub(crate) storage_indexes: BTreeMap<ExGuid, StorageIndex>,
+    pub(crate) storage_manifests: BTreeMap<ExGuid, StorageManifest>,
     pub(crate) cell_manifests: HashMap<ExGuid, ExGuid>,
     pub(crate) revision_manifests: HashMap<ExGuid, RevisionManifest>,
     pub(crate) object_groups: HashMap<ExGuid, ObjectGroup>,
diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index be75b5a..70e2beb 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -6,7 +6,7 @@ use crate::fsshttpb::data::object_types::ObjectType;
 use crate::fsshttpb::data::serial_number::SerialNumber;
 use crate::fsshttpb::data::stream_object::ObjectHeader;
 use crate::fsshttpb::data_element::DataElement;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// A storage index.
 ///
@@ -17,8 +17,8 @@ use std::collections::HashMap;
 #[allow(dead_code)]
 pub(crate) struct StorageIndex {
     pub(crate) manifest_mappings: Vec<StorageIndexManifestMapping>,
-    pub(crate) cell_mappings: HashMap<CellId, StorageIndexCellMapping>,
-    pub(crate) revision_mappings: HashMap<ExGuid, StorageIndexRevisionMapping>,
+    pub(crate) cell_mappings: BTreeMap<CellId, StorageIndexCellMapping>,
+    pub(crate) revision_mappings: BTreeMap<ExGuid, StorageIndexRevisionMapping>,
 }
 
 impl StorageIndex {
@@ -70,8 +70,8 @@ pub(crate) struct StorageIndexRevisionMapping {
 impl DataElement {
     pub(crate) fn parse_storage_index(reader: Reader) -> Result<StorageIndex> {
         let mut manifest_mappings = vec![];
-        let mut cell_mappings = HashMap::new();
-        let mut revision_mappings = HashMap::new();
+        let mut cell_mappings = BTreeMap::new();
+        let mut revision_mappings = BTreeMap::new();
 
         loop {
             if ObjectHeader::has_end_8(reader, ObjectType::DataElement)? {
diff --git a/src/shared/guid.rs b/src/shared/guid.rs
index 4a2061a..cc4ba70 100644
--- a/src/shared/guid.rs
+++ b/src/shared/guid.rs
@@ -12,7 +12,7 @@ use uuid::Uuid;
 ///
 /// [\[1\]]: https://stackoverflow.com/questions/10190817/guid-byte-order-in-net
 /// [\[2\]]: https://docs.microsoft.com/en-us/dotnet/api/system.guid.tobytearray?view=net-5.0#remarks
-#[derive(Clone, Copy, PartialEq, Hash, Eq)]
+#[derive(Clone, Copy, PartialEq, Hash, Eq, PartialOrd, Ord)]
 pub struct Guid(pub Uuid);
 
 impl Guid {
-- 
2.43.0


From 36d95c93221b770f965f009c3edc1a9defd3c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:32 +0000
Subject: [PATCH 15/25] fix: do not match cells and revisions by null serial
 numbers

---
 src/fsshttpb/data_element/storage_index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fsshttpb/data_element/storage_index.rs b/src/fsshttpb/data_element/storage_index.rs
index 70e2beb..85e2ef7 100644
--- a/src/fsshttpb/data_element/storage_index.rs
+++ b/src/fsshttpb/data_element/storage_index.rs
@@ -33,6 +33,11 @@ impl StorageIndex {
     }
 
     pub(crate) fn find_revision_mapping_by_serial(&self, serial: &SerialNumber) -> Option<ExGuid> {
+        // Null serial numbers don't identify a revision
+        if serial.guid.is_nil() {
+            return None;
+        }
+
         self.revision_mappings
             .values()
             .find(|mapping| {
-- 
2.43.0


From aad29060a176a0c3443dc204bcb25d7f558f649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 16/25] fix: limit the nesting of property sets

---
 src/onestore/types/prop_set.rs | 23 +++++++++++++++++++++--
 src/onestore/types/property.rs | 18 ++++++++++++++----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/onestore/types/prop_set.rs b/src/onestore/types/prop_set.rs
index f40a2de..4614ab5 100644
--- a/src/onestore/types/prop_set.rs
+++ b/src/onestore/types/prop_set.rs
@@ -1,8 +1,11 @@
 use crate::Reader;
-use crate::errors::Result;
+use crate::errors::{ErrorKind, Result};
 use crate::onestore::types::property::{PropertyId, PropertyValue};
 use std::collections::HashMap;
 
+/// The maximum number of property sets that can be nested in each other.
+const MAX_NESTING_DEPTH: usize = 32;
+
 /// A property set.
 ///
 /// See [\[MS-ONESTORE\] 2.6.7].
@@ -15,6 +18,17 @@ pub(crate) struct PropertySet {
 
 impl PropertySet {
     pub(crate) fn parse(reader: Reader) -> Result<PropertySet> {
+        Self::parse_nested(reader, 0)
+    }
+
+    pub(crate) fn parse_nested(reader: Reader, depth: usize) -> Result<PropertySet> {
+        if depth > MAX_NESTING_DEPTH {
+            return Err(ErrorKind::MalformedOneStoreData(
+                "property sets are nested too deeply".into(),
+            )
+            .into());
+        }
+
         let count = reader.get_u16()?;
 
         let property_ids: Vec<_> = (0..count)
@@ -24,7 +38,12 @@ impl PropertySet {
         let values = property_ids
             .into_iter()
             .enumerate()
-            .map(|(idx, id)| Ok((id.id(), (idx, PropertyValue::parse(id, reader)?))))
+            .map(|(idx, id)| {
+                Ok((
+                    id.id(),
+                    (idx, PropertyValue::parse_nested(id, reader, depth)?),
+                ))
+            })
             .collect::<Result<_>>()?;
 
         Ok(PropertySet { values })
diff --git a/src/onestore/types/property.rs b/src/onestore/types/property.rs
index b1eecea..2f553ea 100644
--- a/src/onestore/types/property.rs
+++ b/src/onestore/types/property.rs
@@ -113,7 +113,17 @@ impl PropertyValue {
     //     }
     // }
 
+    #[cfg(test)]
     pub(crate) fn parse(property_id: PropertyId, reader: Reader) -> Result<PropertyValue> {
+        Self::parse_nested(property_id, reader, 0)
+    }
+
+    /// Parse a property value of a property set at nesting level `depth`.
+    pub(crate) fn parse_nested(
+        property_id: PropertyId,
+        reader: Reader,
+        depth: usize,
+    ) -> Result<PropertyValue> {
         let prop_type = property_id.prop_type();
 
         let value = match prop_type {
@@ -134,8 +144,8 @@ impl PropertyValue {
             0xC => PropertyValue::ContextId,
             0xD => PropertyValue::ContextIds(reader.get_u32()?),
 
-            0x10 => PropertyValue::parse_property_values(reader)?,
-            0x11 => PropertyValue::PropertySet(PropertySet::parse(reader)?),
+            0x10 => PropertyValue::parse_property_values(reader, depth)?,
+            0x11 => PropertyValue::PropertySet(PropertySet::parse_nested(reader, depth + 1)?),
 
             v => {
                 return Err(ErrorKind::MalformedOneStoreData(
@@ -155,7 +165,7 @@ impl PropertyValue {
         Ok(PropertyValue::Vec(data))
     }
 
-    fn parse_property_values(reader: Reader) -> Result<PropertyValue> {
+    fn parse_property_values(reader: Reader, depth: usize) -> Result<PropertyValue> {
         let size = reader.get_u32()?;
 
         // Parse property ID
@@ -165,7 +175,7 @@ impl PropertyValue {
         // Parse property values
 
         let values = (0..size)
-            .map(|_| PropertySet::parse(reader))
+            .map(|_| PropertySet::parse_nested(reader, depth + 1))
             .collect::<Result<_>>()?;
 
         Ok(PropertyValue::PropertyValues(id, values))
-- 
2.43.0


From 94cbd9883a6abc2f4440b6ab6a0f4447488b8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 17/25] fix: limit how deep and how often objects contain each
 other

---
 src/onenote/content.rs       |  1 +
 src/onenote/notebook.rs      |  1 +
 src/onenote/outline.rs       |  2 ++
 src/onenote/page.rs          |  6 ++++-
 src/onenote/page_content.rs  |  1 +
 src/onenote/page_series.rs   |  1 +
 src/onenote/table.rs         |  2 ++
 src/onestore/object_space.rs | 43 ++++++++++++++++++++++++++++++++++++
 8 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/onenote/content.rs b/src/onenote/content.rs
index 3e07842..18e59f7 100644
--- a/src/onenote/content.rs
+++ b/src/onenote/content.rs
@@ -78,6 +78,7 @@ impl Content {
 }
 
 pub(crate) fn parse_content(content_id: ExGuid, space: &ObjectSpace) -> Result<Content> {
+    let _visit = space.visit(content_id)?;
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
diff --git a/src/onenote/notebook.rs b/src/onenote/notebook.rs
index 8f15e33..e501614 100644
--- a/src/onenote/notebook.rs
+++ b/src/onenote/notebook.rs
@@ -48,6 +48,7 @@ pub(crate) fn parse_toc(space: &ObjectSpace) -> Result<(Vec<String>, Option<Colo
 }
 
 fn parse_toc_entry(content_id: ExGuid, space: &ObjectSpace) -> Result<TocEntry> {
+    let _visit = space.visit(content_id)?;
     let content = space.get_object(content_id).ok_or_else(|| {
         ErrorKind::MalformedOneNoteData("notebook content root is missing".into())
     })?;
diff --git a/src/onenote/outline.rs b/src/onenote/outline.rs
index f7db6a2..1d56980 100644
--- a/src/onenote/outline.rs
+++ b/src/onenote/outline.rs
@@ -315,6 +315,7 @@ fn parse_outline_item(item_id: ExGuid, space: &ObjectSpace) -> Result<OutlineIte
 }
 
 fn parse_outline_group(group_id: ExGuid, space: &ObjectSpace) -> Result<OutlineGroup> {
+    let _visit = space.visit(group_id)?;
     let group_object = space
         .get_object(group_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline group is missing".into()))?;
@@ -338,6 +339,7 @@ pub(crate) fn parse_outline_element(
     element_id: ExGuid,
     space: &ObjectSpace,
 ) -> Result<OutlineElement> {
+    let _visit = space.visit(element_id)?;
     let element_object = space
         .get_object(element_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("outline element is missing".into()))?;
diff --git a/src/onenote/page.rs b/src/onenote/page.rs
index b4121dd..1f5e51e 100644
--- a/src/onenote/page.rs
+++ b/src/onenote/page.rs
@@ -180,7 +180,11 @@ fn parse_title(title_id: ExGuid, space: &ObjectSpace) -> Result<Title> {
     let contents = title
         .children
         .into_iter()
-        .map(|outline_id| parse_outline(outline_id, space))
+        .map(|outline_id| {
+            let _visit = space.visit(outline_id)?;
+
+            parse_outline(outline_id, space)
+        })
         .collect::<Result<_>>()?;
 
     Ok(Title {
diff --git a/src/onenote/page_content.rs b/src/onenote/page_content.rs
index cd38d0c..6c47643 100644
--- a/src/onenote/page_content.rs
+++ b/src/onenote/page_content.rs
@@ -61,6 +61,7 @@ impl PageContent {
 }
 
 pub(crate) fn parse_page_content(content_id: ExGuid, space: &ObjectSpace) -> Result<PageContent> {
+    let _visit = space.visit(content_id)?;
     let content_type = space
         .get_object(content_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("page content is missing".into()))?
diff --git a/src/onenote/page_series.rs b/src/onenote/page_series.rs
index 6406c90..40e3b06 100644
--- a/src/onenote/page_series.rs
+++ b/src/onenote/page_series.rs
@@ -23,6 +23,7 @@ impl PageSeries {
 }
 
 pub(crate) fn parse_page_series(id: ExGuid, store: &OneStore) -> Result<PageSeries> {
+    let _visit = store.data_root().visit(id)?;
     let object = store
         .data_root()
         .get_object(id)
diff --git a/src/onenote/table.rs b/src/onenote/table.rs
index daa81b3..cdf0f4b 100644
--- a/src/onenote/table.rs
+++ b/src/onenote/table.rs
@@ -192,6 +192,7 @@ pub(crate) fn parse_table(table_id: ExGuid, space: &ObjectSpace) -> Result<Table
 }
 
 fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
+    let _visit = space.visit(row_id)?;
     let row_object = space
         .get_object(row_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("row object is missing".into()))?;
@@ -209,6 +210,7 @@ fn parse_row(row_id: ExGuid, space: &ObjectSpace) -> Result<TableRow> {
 }
 
 fn parse_cell(cell_id: ExGuid, space: &ObjectSpace) -> Result<TableCell> {
+    let _visit = space.visit(cell_id)?;
     let cell_object = space
         .get_object(cell_id)
         .ok_or_else(|| ErrorKind::MalformedOneNoteData("cell object is missing".into()))?;
diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index edc3a2b..9972627 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -7,10 +7,17 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::revision::Revision;
 use crate::onestore::revision_role::RevisionRole;
+use std::cell::{Cell, RefCell};
 use std::collections::{HashMap, HashSet};
 
 pub(crate) type GroupData<'a> = HashMap<(ExGuid, u64), &'a ObjectGroupData>;
 
+/// The maximum depth to which objects of a space can be nested in each other.
+const MAX_NESTING_DEPTH: usize = 100;
+
+/// The maximum number of times an object can be used as the child of another object.
+const MAX_VISITS: usize = 16;
+
 /// A OneNote object space.
 ///
 /// Typically this is a section's metadata or a page and its content.
@@ -25,6 +32,17 @@ pub(crate) struct ObjectSpace<'a> {
     context: ExGuid,
     roots: HashMap<RevisionRole, ExGuid>,
     objects: HashMap<ExGuid, Object<'a>>,
+    visits: RefCell<HashMap<ExGuid, usize>>,
+    depth: Cell<usize>,
+}
+
+/// Marks an object as being visited until it's dropped.
+pub(crate) struct Visit<'a>(&'a Cell<usize>);
+
+impl Drop for Visit<'_> {
+    fn drop(&mut self) {
+        self.0.set(self.0.get() - 1);
+    }
 }
 
 impl<'a, 'b> ObjectSpace<'a> {
@@ -32,6 +50,27 @@ impl<'a, 'b> ObjectSpace<'a> {
         self.objects.get(&id)
     }
 
+    /// Start visiting an object that can (indirectly) contain other objects.
+    ///
+    /// This rejects objects that contain themselves, objects that are nested too deeply and objects
+    /// that are used over and over again.
+    pub(crate) fn visit(&self, id: ExGuid) -> Result<Visit<'_>> {
+        let mut visits = self.visits.borrow_mut();
+        let count = visits.entry(id).or_default();
+        *count += 1;
+
+        if *count > MAX_VISITS || self.depth.get() >= MAX_NESTING_DEPTH {
+            return Err(ErrorKind::MalformedOneNoteData(
+                "objects are nested too deeply or contain themselves".into(),
+            )
+            .into());
+        }
+
+        self.depth.set(self.depth.get() + 1);
+
+        Ok(Visit(&self.depth))
+    }
+
     pub(crate) fn content_root(&self) -> Option<ExGuid> {
         self.roots.get(&RevisionRole::DefaultContent).copied()
     }
@@ -69,6 +108,8 @@ impl<'a, 'b> ObjectSpace<'a> {
                     context: context_id,
                     roots: HashMap::new(),
                     objects: HashMap::new(),
+                    visits: Default::default(),
+                    depth: Default::default(),
                 },
             ));
         }
@@ -110,6 +151,8 @@ impl<'a, 'b> ObjectSpace<'a> {
             context: context_id,
             roots,
             objects,
+            visits: Default::default(),
+            depth: Default::default(),
         };
 
         Ok((cell_id, space))
-- 
2.43.0


From 2f71dca2206349127147c8ed8218066c5188fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 18/25] fix: read each object group of an object space only
 once

---
 src/onestore/object_space.rs | 2 ++
 src/onestore/revision.rs     | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/onestore/object_space.rs b/src/onestore/object_space.rs
index 9972627..3268209 100644
--- a/src/onestore/object_space.rs
+++ b/src/onestore/object_space.rs
@@ -120,6 +120,7 @@ impl<'a, 'b> ObjectSpace<'a> {
 
         let mut objects = HashMap::new();
         let mut roots = HashMap::new();
+        let mut groups = HashSet::new();
 
         let mut rev_id = Some(revision_manifest_id);
         let mut visited = HashSet::new();
@@ -141,6 +142,7 @@ impl<'a, 'b> ObjectSpace<'a> {
                 revision_cache,
                 &mut objects,
                 &mut roots,
+                &mut groups,
             )?;
 
             rev_id = base_rev_id;
diff --git a/src/onestore/revision.rs b/src/onestore/revision.rs
index 4d26a81..1df7c1b 100644
--- a/src/onestore/revision.rs
+++ b/src/onestore/revision.rs
@@ -6,7 +6,7 @@ use crate::fsshttpb::packaging::OneStorePackaging;
 use crate::onestore::object::Object;
 use crate::onestore::object_space::GroupData;
 use crate::onestore::revision_role::RevisionRole;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 /// A OneNote file revision.
 ///
@@ -30,6 +30,7 @@ impl<'a, 'b> Revision<'a> {
         revision_cache: &'b mut HashMap<CellId, Revision<'a>>,
         objects: &'b mut HashMap<ExGuid, Object<'a>>,
         roots: &'b mut HashMap<RevisionRole, ExGuid>,
+        groups: &'b mut HashSet<ExGuid>,
     ) -> Result<Option<ExGuid>> {
         let revision_manifest = packaging
             .data_element_package
@@ -66,6 +67,11 @@ impl<'a, 'b> Revision<'a> {
         }
 
         for group_id in revision_manifest.group_references.iter() {
+            // The objects of a group that has been seen before are all known
+            if !groups.insert(*group_id) {
+                continue;
+            }
+
             Self::parse_group(context_id, *group_id, object_space_id, packaging, objects)?
         }
 
-- 
2.43.0


From 551b2a6adca723282e7a633a96d5cb79a4181087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 19/25] fix: open notebooks in the current directory

---
 src/onenote/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index e90d63d..89d2e95 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -238,6 +238,12 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
 
     let candidate = base_dir.join(&sanitized);
     if candidate.exists() {
+        // The parent of a bare file name is empty
+        let base_dir = if base_dir.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_dir
+        };
         let base_canon = base_dir
             .canonicalize()
             .map_err(|err| ErrorKind::InvalidPath {
-- 
2.43.0


From 56a069c85f83f2e4ac99f8a0e4d697eadc5a6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 20/25] fix: refuse section groups that link to their own
 folder

---
 src/onenote/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 89d2e95..93ff926 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -254,7 +254,7 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
             .map_err(|err| ErrorKind::InvalidPath {
                 message: format!("failed to resolve entry path: {err}").into(),
             })?;
-        if !candidate_canon.starts_with(&base_canon) {
+        if !candidate_canon.starts_with(&base_canon) || candidate_canon == base_canon {
             return Err(ErrorKind::InvalidPath {
                 message: "section entry escapes base directory".into(),
             }
-- 
2.43.0


From a6f6fb6b43a7bff9ec7c3aacd614a3376430242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 21/25] fix: pick the table of contents of a section group in a
 fixed order

---
 src/onenote/mod.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index 93ff926..c30edc7 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -4,6 +4,7 @@ use crate::onenote::notebook::Notebook;
 use crate::onenote::section::{Section, SectionEntry, SectionGroup};
 use crate::onestore::parse_store;
 use crate::reader::Reader;
+use itertools::Itertools;
 use sanitise_file_name::sanitise;
 use std::ffi::OsStr;
 use std::fs::File;
@@ -158,22 +159,24 @@ impl Parser {
             .to_string_lossy()
             .to_string();
 
-        for entry in path.read_dir()? {
-            let entry = entry?;
-            let is_toc = entry
-                .path()
-                .extension()
-                .map(|ext| ext == OsStr::new("onetoc2"))
-                .unwrap_or_default();
-
-            if is_toc {
-                return self
-                    .parse_notebook(&entry.path())
-                    .map(|group| SectionGroup {
-                        display_name,
-                        entries: group.entries,
-                    });
-            }
+        let mut toc_paths = path
+            .read_dir()?
+            .map(|entry| entry.map(|entry| entry.path()))
+            .filter_ok(|path| {
+                path.extension()
+                    .map(|ext| ext == OsStr::new("onetoc2"))
+                    .unwrap_or_default()
+            })
+            .collect::<std::io::Result<Vec<_>>>()?;
+
+        // Don't depend on the order in which the directory is listed
+        toc_paths.sort();
+
+        if let Some(toc_path) = toc_paths.first() {
+            return self.parse_notebook(toc_path).map(|group| SectionGroup {
+                display_name,
+                entries: group.entries,
+            });
         }
 
         Err(ErrorKind::TocFileMissing {
-- 
2.43.0


From 3a75337a89c1a55bcd281dc905457abfd5828e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 22/25] fix: refuse tables of contents of section groups that
 link elsewhere

---
 src/onenote/mod.rs | 51 ++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index c30edc7..a31b620 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -173,6 +173,8 @@ impl Parser {
         toc_paths.sort();
 
         if let Some(toc_path) = toc_paths.first() {
+            ensure_within(path, toc_path)?;
+
             return self.parse_notebook(toc_path).map(|group| SectionGroup {
                 display_name,
                 entries: group.entries,
@@ -241,33 +243,38 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
 
     let candidate = base_dir.join(&sanitized);
     if candidate.exists() {
-        // The parent of a bare file name is empty
-        let base_dir = if base_dir.as_os_str().is_empty() {
-            Path::new(".")
-        } else {
-            base_dir
-        };
-        let base_canon = base_dir
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve base directory: {err}").into(),
-            })?;
-        let candidate_canon = candidate
-            .canonicalize()
-            .map_err(|err| ErrorKind::InvalidPath {
-                message: format!("failed to resolve entry path: {err}").into(),
-            })?;
-        if !candidate_canon.starts_with(&base_canon) || candidate_canon == base_canon {
-            return Err(ErrorKind::InvalidPath {
-                message: "section entry escapes base directory".into(),
-            }
-            .into());
-        }
+        ensure_within(base_dir, &candidate)?;
     }
 
     Ok(candidate)
 }
 
+/// Check that a path doesn't lead out of the base directory.
+fn ensure_within(base_dir: &Path, path: &Path) -> Result<()> {
+    // The parent of a bare file name is empty
+    let base_dir = if base_dir.as_os_str().is_empty() {
+        Path::new(".")
+    } else {
+        base_dir
+    };
+    let base_canon = base_dir
+        .canonicalize()
+        .map_err(|err| ErrorKind::InvalidPath {
+            message: format!("failed to resolve base directory: {err}").into(),
+        })?;
+    let path_canon = path.canonicalize().map_err(|err| ErrorKind::InvalidPath {
+        message: format!("failed to resolve entry path: {err}").into(),
+    })?;
+    if !path_canon.starts_with(&base_canon) || path_canon == base_canon {
+        return Err(ErrorKind::InvalidPath {
+            message: "section entry escapes base directory".into(),
+        }
+        .into());
+    }
+
+    Ok(())
+}
+
 impl Default for Parser {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 3b4bd8938cb50f34a086aa0133158e2fe519040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:26 +0000
Subject: [PATCH 23/25] fix: accept entry names that begin or end in
 punctuation or contain wide spaces

---
 src/onenote/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/onenote/mod.rs b/src/onenote/mod.rs
index a31b620..f6a122f 100644
--- a/src/onenote/mod.rs
+++ b/src/onenote/mod.rs
@@ -5,7 +5,7 @@ use crate::onenote::section::{Section, SectionEntry, SectionGroup};
 use crate::onestore::parse_store;
 use crate::reader::Reader;
 use itertools::Itertools;
-use sanitise_file_name::sanitise;
+use sanitise_file_name::{Options, sanitise_with_options};
 use std::ffi::OsStr;
 use std::fs::File;
 use std::io::{BufReader, Read};
@@ -214,7 +214,13 @@ fn resolve_entry_path(base_dir: &Path, entry: &str) -> Result<PathBuf> {
                 let name = name.to_str().ok_or_else(|| ErrorKind::InvalidPath {
                     message: "section entry contains non-utf8 characters".into(),
                 })?;
-                let clean = sanitise(name);
+                // Punctuation and white space are only trouble in a few places
+                let options = Options {
+                    normalise_whitespace: false,
+                    trim_more_punctuation: false,
+                    ..Options::DEFAULT
+                };
+                let clean = sanitise_with_options(name, &options);
                 if clean != name {
                     return Err(ErrorKind::InvalidPath {
                         message: format!("section entry contains invalid characters: {name}")
-- 
2.43.0


From e757fed8cad6e99b799de3b730e446f8742b8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 24/25] fix: accept paths that are not valid Unicode on the
 command line

---
 src/bin/onenote-parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/onenote-parse.rs b/src/bin/onenote-parse.rs
index e526428..06d7b2f 100644
--- a/src/bin/onenote-parse.rs
+++ b/src/bin/onenote-parse.rs
@@ -4,7 +4,7 @@ use std::ffi::OsString;
 use std::path::PathBuf;
 
 fn main() {
-    let path = env::args().nth(1).expect("usage: parse <file>");
+    let path = env::args_os().nth(1).expect("usage: parse <file>");
     let path = PathBuf::from(path);
 
     let parser = Parser::new();
-- 
2.43.0


From 47922df699d6991434172179b1e863404ef0941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:25 +0000
Subject: [PATCH 25/25] fix: share the mapping table between the text runs of a
 paragraph

---
 src/onestore/mapping_table.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/onestore/mapping_table.rs b/src/onestore/mapping_table.rs
index 636ebdd..3ac13df 100644
--- a/src/onestore/mapping_table.rs
+++ b/src/onestore/mapping_table.rs
@@ -2,6 +2,7 @@ use crate::fsshttpb::data::cell_id::CellId;
 use crate::fsshttpb::data::exguid::ExGuid;
 use crate::onestore::types::compact_id::CompactId;
 use std::collections::HashMap;
+use std::rc::Rc;
 
 /// The ID mapping table for an object.
 ///
@@ -16,8 +17,8 @@ use std::collections::HashMap;
 /// [\[MS-ONESTORE\] 2.7.8]: https://docs.microsoft.com/en-us/openspecs/office_file_formats/ms-onestore/c2e58ac6-7a86-4009-a1e4-4a84cd21508f
 #[derive(Debug, Clone)]
 pub(crate) struct MappingTable {
-    objects: HashMap<CompactId, Vec<(usize, ExGuid)>>,
-    object_spaces: HashMap<CompactId, Vec<(usize, CellId)>>,
+    objects: Rc<HashMap<CompactId, Vec<(usize, ExGuid)>>>,
+    object_spaces: Rc<HashMap<CompactId, Vec<(usize, CellId)>>>,
 }
 
 impl MappingTable {
@@ -39,8 +40,8 @@ impl MappingTable {
         }
 
         MappingTable {
-            objects: objects_map,
-            object_spaces: object_spaces_map,
+            objects: Rc::new(objects_map),
+            object_spaces: Rc::new(object_spaces_map),
         }
     }
 
@@ -62,8 +63,8 @@ impl MappingTable {
         }
 
         MappingTable {
-            objects,
-            object_spaces: self.object_spaces.clone(),
+            objects: Rc::new(objects),
+            object_spaces: Rc::clone(&self.object_spaces),
         }
     }
 
-- 
2.43.0

