From 94a12e2b7c8b0ecd0f58eab69f24f87440c69bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 01/17] hooks: constructors of blank Rc/Arc objects under
 cfg(osmio_verif)

---
 src/obj_types/mod.rs         |  3 ++
 src/obj_types/verif_hooks.rs | 89 ++++++++++++++++++++++++++++++++++++
 2 files changed, 92 insertions(+)
 create mode 100644 src/obj_types/verif_hooks.rs

diff --git a/src/obj_types/mod.rs b/src/obj_types/mod.rs
index 964fe3a..f04ade2 100644
--- a/src/obj_types/mod.rs
+++ b/src/obj_types/mod.rs
@@ -1,7 +1,10 @@
 //! Base OpenStreetMap object types
+#![allow(unexpected_cfgs)]
 mod arc_types;
 mod rc_types;
 mod string_types;
+#[cfg(osmio_verif)]
+pub mod verif_hooks;
 
 use crate::{Node, OSMObjBase, Relation, Way};
 
diff --git a/src/obj_types/verif_hooks.rs b/src/obj_types/verif_hooks.rs
new file mode 100644
index 0000000..744ba6e
--- /dev/null
+++ b/src/obj_types/verif_hooks.rs
@@ -0,0 +1,89 @@
+//! Constructors of blank objects for the verification harness.
+//!
+//! Only compiled with `--cfg osmio_verif`.
+use super::*;
+use crate::ObjId;
+
+pub fn rc_node(id: ObjId) -> RcNode {
+    RcNode {
+        _id: id,
+        _version: None,
+        _deleted: false,
+        _changeset_id: None,
+        _timestamp: None,
+        _uid: None,
+        _user: None,
+        _tags: None,
+        _lat_lon: None,
+    }
+}
+
+pub fn rc_way(id: ObjId) -> RcWay {
+    RcWay {
+        _id: id,
+        _version: None,
+        _deleted: false,
+        _changeset_id: None,
+        _timestamp: None,
+        _uid: None,
+        _user: None,
+        _tags: Default::default(),
+        _nodes: Default::default(),
+    }
+}
+
+pub fn rc_relation(id: ObjId) -> RcRelation {
+    RcRelation {
+        _id: id,
+        _version: None,
+        _deleted: false,
+        _changeset_id: None,
+        _timestamp: None,
+        _uid: None,
+        _user: None,
+        _tags: Default::default(),
+        _members: Default::default(),
+    }
+}
+
+pub fn arc_node(id: ObjId) -> ArcNode {
+    ArcNode {
+        _id: id,
+        _version: None,
+        _deleted: false,
+        _changeset_id: None,
+        _timestamp: None,
+        _uid: None,
+        _user: None,
+        _tags: None,
+        _lat_lon: None,
+    }
+}
+
+pub fn arc_way(id: ObjId) -> ArcWay {
+    ArcWay {
+        _id: id,
+        _version: None,
+        _deleted: false,
+        _changeset_id: None,
+        _timestamp: None,
+        _uid: None,
+        _user: None,
+        _tags: Default::default(),
+        _nodes: Default::default(),
+    }
+}
+
+pub fn arc_relation(id: ObjId) -> ArcRelation {
+    ArcRelation {
+        _id: id,
+        _version: None,
+        _deleted: false,
+        _changeset_id: None,
+        _timestamp: None,
+        _uid: None,
+        _user: None,
+        _tags: Default::default(),
+        _members: Default::default(),
+    }
+}
-- 
2.43.0


From 92b63326b910adddb6340d5dc0361f6ee8426073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 02/17] fix: read uncompressed PBF blobs

copy_from_slice into the just cleared buffer panicked for every raw blob.
---
 src/stringpbf/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..e321632 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -37,8 +37,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     // get lifetime errors with bytes not living long enough.
     buf.clear();
     if let Some(raw) = &blob.raw {
-        buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From 1417b89ef7cd1edfde4006d2f59e6fd5654ecfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 03/17] fix: read PBF blocks with any number of primitive
 groups

The string reader asserted that a block has exactly one group.
---
 src/stringpbf/mod.rs | 49 +++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e321632..9c64ffa 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -365,7 +365,7 @@ fn decode_primitive_group_to_objs(
     lat_offset: i64,
     lon_offset: i64,
     date_granularity: i32,
-    raw_stringtable: osmformat::StringTable,
+    raw_stringtable: &osmformat::StringTable,
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -390,9 +390,11 @@ fn decode_primitive_group_to_objs(
         );
     } else if primitive_group.dense.is_some() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_dense_nodes(
             primitive_group,
@@ -405,9 +407,11 @@ fn decode_primitive_group_to_objs(
         );
     } else if !primitive_group.ways.is_empty() && object_filter.1 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_ways(
             primitive_group,
@@ -420,9 +424,11 @@ fn decode_primitive_group_to_objs(
         );
     } else if !primitive_group.relations.is_empty() && object_filter.2 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_relations(
             primitive_group,
@@ -454,17 +460,18 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
-    );
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            &raw_stringtable,
+            object_filter,
+            sink,
+        );
+    }
 
     results
 }
-- 
2.43.0


From 7c9dcd06a23210207f0f4f03e566ecaefa01a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 04/17] fix: accept PBF primitive groups without objects

The Arc reader and the node position reader hit unreachable!() on them.
---
 src/arcpbf/mod.rs            | 2 +-
 src/stringpbf/node_id_pos.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..5c1b5f5 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -431,7 +431,7 @@ fn decode_primitive_group_to_objs(
             results,
         );
     } else {
-        unreachable!();
+        // an empty group holds no objects
     }
 }
 
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..80d65f2 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -124,7 +124,7 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
                 num_objects += 1;
             }
         } else {
-            unreachable!();
+            // an empty group holds no objects
         }
     }
 
-- 
2.43.0


From f9a229285dd5a36e7dd4e551e45e6093b966e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 05/17] fix: PBF ways and relations are visible unless the file
 says otherwise

visible defaults to true (it is only written for historical data); the
string reader reported such objects as deleted and the Arc reader panicked.
---
 src/arcpbf/mod.rs    | 4 ++--
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 5c1b5f5..c869a18 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -276,7 +276,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(
@@ -366,7 +366,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 9c64ffa..97f1565 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -262,7 +262,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
@@ -346,7 +346,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-- 
2.43.0


From da53cc44c9e32588165e8a0d6846ae6f7252c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 06/17] fix: compute PBF coordinates at full precision

The granularity was divided by 100 before it was applied, so any granularity
that is not a multiple of 100 gave wrong positions (or 0), the offset was
truncated on its own and raw values had to fit 32 bits.
---
 src/arcpbf/mod.rs            | 27 +++++++++++----------------
 src/stringpbf/mod.rs         | 27 +++++++++++----------------
 src/stringpbf/node_id_pos.rs | 33 ++++++++++++++-------------------
 3 files changed, 36 insertions(+), 51 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index c869a18..0306882 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -126,8 +126,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -138,24 +138,19 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets from pbf are in nanodegrees
+        let nano_lat = lat_offset + granularity as i64 * raw_lat;
+        let nano_lon = lon_offset + granularity as i64 * raw_lon;
+        let internal_lat = i32::try_from(nano_lat / COORD_PRECISION_NANOS as i64)
+            .expect("lat was larger than the OSM precision allows");
+        let internal_lon = i32::try_from(nano_lon / COORD_PRECISION_NANOS as i64)
+            .expect("lon was larger than the OSM precision allows");
 
         let tags = if !has_tags {
             None
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 97f1565..4abc86b 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -130,8 +130,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -142,24 +142,19 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets from pbf are in nanodegrees
+        let nano_lat = lat_offset + granularity as i64 * raw_lat;
+        let nano_lon = lon_offset + granularity as i64 * raw_lon;
+        let internal_lat = i32::try_from(nano_lat / COORD_PRECISION_NANOS as i64)
+            .expect("lat was larger than the OSM precision allows");
+        let internal_lon = i32::try_from(nano_lon / COORD_PRECISION_NANOS as i64)
+            .expect("lon was larger than the OSM precision allows");
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         loop {
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 80d65f2..c81490a 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -73,9 +73,9 @@ impl<R: Read> Iterator for PBFNodePositionReader<R> {
 }
 
 fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<NodeIdPos>) -> usize {
-    let granularity = &block.granularity();
-    let lat_offset = &block.lat_offset();
-    let lon_offset = &block.lon_offset();
+    let granularity = block.granularity();
+    let lat_offset = block.lat_offset();
+    let lon_offset = block.lon_offset();
     let mut num_objects = 0;
 
     for primitive_group in block.primitivegroup.iter() {
@@ -93,32 +93,27 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                // granularity & offsets from pbf are in nanodegrees
+                let nano_lat = lat_offset + granularity as i64 * raw_lat;
+                let nano_lon = lon_offset + granularity as i64 * raw_lon;
+                let internal_lat = i32::try_from(nano_lat / COORD_PRECISION_NANOS as i64)
+                    .expect("lat was larger than the OSM precision allows");
+                let internal_lon = i32::try_from(nano_lon / COORD_PRECISION_NANOS as i64)
+                    .expect("lon was larger than the OSM precision allows");
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
-- 
2.43.0


From fb9459dd765deb4176bc8493296ad6b4ebf9af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 07/17] fix: scale PBF timestamps by the date granularity

The delta decoding of dense nodes accumulated already scaled 32-bit values, a
granularity below a second became 0, and ways and relations ignored it.
---
 src/arcpbf/mod.rs    | 21 +++++++++++++--------
 src/stringpbf/mod.rs | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 0306882..e5ce7ad 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -193,10 +193,10 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
         assert!(uid_id < i32::MAX);
 
         results.push(ArcOSMObj::Node(ArcNode {
@@ -220,7 +220,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -265,7 +265,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -291,7 +294,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -355,7 +358,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -384,7 +390,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 4abc86b..6af805d 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -181,10 +181,10 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
         assert!(uid_id < i32::MAX);
 
         results.push_back(StringOSMObj::Node(StringNode {
@@ -209,7 +209,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -251,7 +251,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -274,7 +277,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -335,7 +338,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -364,7 +370,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-- 
2.43.0


From 57a4f04bad1d5c8047869b5f56f89b6fdf6880f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 08/17] fix: leave absent PBF metadata unset

Info and DenseInfo and each of their fields are optional; both readers panicked
when one was missing (and on a uid of i32::MAX).
---
 src/arcpbf/mod.rs    | 86 +++++++++++++++++++++++---------------------
 src/stringpbf/mod.rs | 77 ++++++++++++++++++++++-----------------
 2 files changed, 90 insertions(+), 73 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index e5ce7ad..dc2b17d 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -187,28 +187,35 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
-        // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
-        assert!(uid_id < i32::MAX);
+        // metadata is optional
+        let changeset_id = changesets.get(index).map(|delta| {
+            last_changset += delta;
+            last_changset as u32
+        });
+        let uid_id = uids.get(index).map(|delta| {
+            last_uid += delta;
+            last_uid as u32
+        });
+        let user = user_sids.get(index).and_then(|delta| {
+            last_user_sid += delta;
+            stringtable[last_user_sid as usize].clone()
+        });
+        let timestamp = timestamps.get(index).map(|delta| {
+            last_timestamp += delta;
+            // date_granularity is in milliseconds
+            TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
+        });
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id,
+            _uid: uid_id,
+            _user: user,
+            _version: denseinfo.version.get(index).map(|&version| version as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -266,25 +273,23 @@ fn decode_ways(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = way.info.timestamp.map(|timestamp| {
+            TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000)
+        });
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|changeset| changeset as u32),
+            _uid: way.info.uid.map(|uid| uid as u32),
+            _user: way
+                .info
+                .user_sid
+                .and_then(|sid| stringtable[sid as usize].clone()),
+            _version: way.info.version.map(|version| version as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -359,24 +364,23 @@ fn decode_relations(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = relation.info.timestamp.map(|timestamp| {
+            TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000)
+        });
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|changeset| changeset as u32),
+            _uid: relation.info.uid.map(|uid| uid as u32),
+            _user: relation
+                .info
+                .user_sid
+                .and_then(|sid| stringtable[sid as usize].clone()),
+            _version: relation.info.version.map(|version| version as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6af805d..e63e4f6 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -175,28 +175,35 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
-        // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
-        assert!(uid_id < i32::MAX);
+        // metadata is optional
+        let changeset_id = changesets.get(index).map(|delta| {
+            last_changset += delta;
+            last_changset as u32
+        });
+        let uid_id = uids.get(index).map(|delta| {
+            last_uid += delta;
+            last_uid as u32
+        });
+        let user = user_sids.get(index).map(|delta| {
+            last_user_sid += delta;
+            stringtable[last_user_sid as usize].clone()
+        });
+        let timestamp = timestamps.get(index).map(|delta| {
+            last_timestamp += delta;
+            // date_granularity is in milliseconds
+            TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
+        });
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id,
+            _uid: uid_id,
+            _user: user,
+            _version: denseinfo.version.get(index).map(|&version| version as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -252,20 +259,23 @@ fn decode_ways(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = way.info.timestamp.map(|timestamp| {
+            TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000)
+        });
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|changeset| changeset as u32),
+            _uid: way.info.uid.map(|uid| uid as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: way.info.version.map(|version| version as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -339,20 +349,23 @@ fn decode_relations(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = relation.info.timestamp.map(|timestamp| {
+            TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000)
+        });
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|changeset| changeset as u32),
+            _uid: relation.info.uid.map(|uid| uid as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: relation.info.version.map(|version| version as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
-- 
2.43.0


From 1da420705b409f0fbc6c50197a7d0bf4e1bba8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 09/17] fix: read PBF dense nodes without tags

keys_vals is empty when no node of the group has tags; the string reader
indexed into it all the same.
---
 src/stringpbf/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e63e4f6..8981b87 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -157,7 +157,8 @@ fn decode_dense_nodes(
             .expect("lon was larger than the OSM precision allows");
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
+        // keys_vals is left out when no node of the group has tags
+        while !keys_vals.is_empty() {
             //assert!(keys_vals_index <= keys_vals.len());
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
-- 
2.43.0


From df124a1a6c4865430afc4147e3be0ae652a63f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 10/17] fix: keep XML nodes without a location

---
 src/xml/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..9903bf1 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -262,12 +262,12 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
+    let lat = get_xml_attribute(attrs, "lat").and_then(|x| x.parse().ok());
+    let lon = get_xml_attribute(attrs, "lon").and_then(|x| x.parse().ok());
 
     let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
-        _errs => None,
+        (Some(lat), Some(lon)) => Some((lat, lon)),
+        _ => None,
     };
     let deleted = get_xml_attribute(attrs, "visible")
         .and_then(|val| match val.as_str() {
-- 
2.43.0


From d8c3e271c4696fd00603c3ac217f6db449285f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 11/17] fix: write XML and OSC objects without a version

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..4cde47d 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -162,7 +162,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 9903bf1..b048932 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -448,7 +448,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From 738857217935762d955e3eaaf20972e9c6c4d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 12/17] fix: convert timestamps without truncating them to 32
 bits

---
 src/lib.rs   | 4 ++--
 src/utils.rs | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..59e9df5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -255,13 +255,13 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t),
         }
     }
 
     pub fn to_epoch_number(&self) -> i64 {
         match self {
-            TimestampFormat::ISOString(s) => iso_to_epoch(s) as i64,
+            TimestampFormat::ISOString(s) => iso_to_epoch(s),
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..40ba51b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,15 +1,14 @@
 //! Misc local utilities
 use chrono::{DateTime, offset::Utc};
 
-pub fn epoch_to_iso(epoch: i32) -> String {
+pub fn epoch_to_iso(epoch: i64) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
-    let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+    let d: DateTime<Utc> = DateTime::from_timestamp(epoch, 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
-pub fn iso_to_epoch(iso: &str) -> u32 {
+pub fn iso_to_epoch(iso: &str) -> i64 {
     DateTime::parse_from_rfc3339(iso)
-        .map(|x| x.timestamp() as u32)
+        .map(|x| x.timestamp())
         .unwrap_or(0)
 }
-- 
2.43.0


From 1dc0589c25960db297a89941b90118bf049e4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 13/17] fix: stop reading a truncated changeset at the end of
 the file

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..7860069 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -204,6 +204,7 @@ impl<R: Read> ChangesetReader<R> {
                                 ensure!(v.is_some(), "No v for tag");
                                 tags.insert(k.unwrap(), v.unwrap());
                             }
+                            Event::Eof => bail!("Unexpected end of file in changeset"),
                             _ => continue,
                         }
                     }
-- 
2.43.0


From 91eb439e80bfba3a81ae65da37ed7c93be87b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 14/17] fix: keep tabs and newlines of XML attribute values

---
 src/osc/mod.rs | 10 +++++-----
 src/xml/mod.rs | 24 +++++++++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 4cde47d..b31150b 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_escaped, xml_elements_to_osm_obj};
+use crate::xml::{write_xml_attribute, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -167,7 +167,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attribute(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -207,7 +207,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attribute(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -215,9 +215,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attribute(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attribute(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index b048932..f574994 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -70,6 +70,20 @@ pub(crate) fn write_xml_escaped(writer: &mut impl Write, s: &str) -> std::io::Re
     Ok(())
 }
 
+/// Like `write_xml_escaped`, but for attribute values, where a literal tab or newline would be
+/// read back as a space.
+pub(crate) fn write_xml_attribute(writer: &mut impl Write, s: &str) -> std::io::Result<()> {
+    for c in s.chars() {
+        match c {
+            '\t' => write!(writer, "&#9;")?,
+            '\n' => write!(writer, "&#10;")?,
+            '\r' => write!(writer, "&#13;")?,
+            c => write_xml_escaped(writer, c.encode_utf8(&mut [0; 4]))?,
+        }
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -380,7 +394,7 @@ impl<W: Write> XMLWriter<W> {
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-                write_xml_escaped(&mut self.writer, v)?;
+                write_xml_attribute(&mut self.writer, v)?;
                 write!(self.writer, "\"")?;
             }
             write!(self.writer, ">")?;
@@ -453,7 +467,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attribute(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -493,7 +507,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attribute(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -501,9 +515,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attribute(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attribute(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
-- 
2.43.0


From bd7d0b2d8b259041bbc5b7f0e5a412083cbb26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 15/17] fix: escape timestamps in XML output

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index b31150b..702689c 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -177,7 +177,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attribute(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index f574994..2804486 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -477,7 +477,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attribute(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
-- 
2.43.0


From 61ffa9acbaae7e09c24084cb283ef08389c27a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:26 +0000
Subject: [PATCH 16/17] fix: changeset tag reader gave a changeset without an
 id the id of the one before

---
 src/changesets.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 7860069..4d236ef 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -359,6 +359,8 @@ impl<R: Read> ChangesetTagReader<R> {
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
+                    self.curr_id = None;
+                    self.tags.clear();
                     for attr in e.attributes() {
                         let attr = attr?;
                         if attr.key.local_name().as_ref() == b"id" {
@@ -366,7 +368,6 @@ impl<R: Read> ChangesetTagReader<R> {
                                 Some(attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?);
                         }
                     }
-                    self.tags.clear();
                 }
                 Event::Start(ref e) | Event::Empty(ref e)
                     if e.name().local_name().as_ref() == b"tag" =>
-- 
2.43.0


From e23dd18a287851d339a85199e241f5bc36f3cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:03 +0000
Subject: [PATCH 17/17] fix: Arc PBF reader panicked on a compressed blob that
 does not state its raw size

---
 src/arcpbf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index dc2b17d..a779c7c 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -31,7 +31,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap() as usize);
+        let mut bytes = Vec::with_capacity(blob.raw_size() as usize);
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
-- 
2.43.0

