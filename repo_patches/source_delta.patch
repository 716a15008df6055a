From 932fa1c2de46134aef8d5f0d23b657fdef51b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 01/38] fix: read uncompressed PBF blobs instead of panicking

---
 src/stringpbf/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..e321632 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -37,8 +37,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     // get lifetime errors with bytes not living long enough.
     buf.clear();
     if let Some(raw) = &blob.raw {
-        buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From a6a1aff851848f8f13b085205cc887e57b8baba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 02/38] fix: decode every primitive group of a PBF block, not
 exactly one

---
 src/stringpbf/mod.rs | 61 +++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e321632..df58b04 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -365,72 +365,50 @@ fn decode_primitive_group_to_objs(
     lat_offset: i64,
     lon_offset: i64,
     date_granularity: i32,
-    raw_stringtable: osmformat::StringTable,
+    stringtable: &[SmolStr],
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(
-            raw_stringtable.s.iter().map(|chars| {
-                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
-            }),
-        );
-
         num_objects_written += decode_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if primitive_group.dense.is_some() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if !primitive_group.ways.is_empty() && object_filter.1 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_ways(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if !primitive_group.relations.is_empty() && object_filter.2 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_relations(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else {
@@ -446,6 +424,12 @@ fn decode_block_to_objs(
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let raw_stringtable = block.stringtable.take().unwrap();
+    let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
+    stringtable.extend(
+        raw_stringtable.s.into_iter().map(|chars| {
+            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
+        }),
+    );
 
     let granularity = block.granularity();
     let lat_offset = block.lat_offset();
@@ -454,17 +438,18 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
-    );
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            &stringtable,
+            object_filter,
+            sink,
+        );
+    }
 
     results
 }
-- 
2.43.0


From 5cf28691d5831129ea6b05c8e41a9579afb63734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 03/38] fix: stringpbf: read dense nodes of a group without any
 tags

---
 src/stringpbf/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index df58b04..9d99129 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -125,6 +125,8 @@ fn decode_dense_nodes(
     // length
 
     let keys_vals = &dense.keys_vals;
+    // keys_vals is left out entirely when no node in this group has tags
+    let has_tags = !keys_vals.is_empty();
 
     let mut keys_vals_index = 0;
 
@@ -162,7 +164,7 @@ fn decode_dense_nodes(
         internal_lon += internal_lon_offset as i32;
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
+        while has_tags {
             //assert!(keys_vals_index <= keys_vals.len());
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
-- 
2.43.0


From 4c23842c49a7177fe477ff4643f17bb6868e35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 04/38] fix: PBF ways and relations without a visible flag are
 not deleted

---
 src/arcpbf/mod.rs    | 4 ++--
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..249da3f 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -276,7 +276,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(
@@ -366,7 +366,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 9d99129..567a054 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -264,7 +264,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
@@ -348,7 +348,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-- 
2.43.0


From 5984bc82d995d8466d32a24aa9f98142cc2a1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 05/38] fix: read PBF objects without (some of) their metadata
 as having it unset

---
 src/arcpbf/mod.rs    | 79 ++++++++++++++++++++++----------------------
 src/stringpbf/mod.rs | 70 ++++++++++++++++++++++-----------------
 2 files changed, 80 insertions(+), 69 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 249da3f..d80b014 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -109,6 +109,7 @@ fn decode_dense_nodes(
     let lons = &dense.lon;
     let denseinfo = &dense.denseinfo;
 
+    let versions = &denseinfo.version;
     let uids = &denseinfo.uid;
     let changesets = &denseinfo.changeset;
     let user_sids = &denseinfo.user_sid;
@@ -192,28 +193,31 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // The whole denseinfo, or any of it's columns, can be left out
+        let changeset_id = (!changesets.is_empty()).then(|| changesets[index] + last_changset);
+        last_changset = changeset_id.unwrap_or(0);
+        let uid_id = (!uids.is_empty()).then(|| uids[index] + last_uid);
+        last_uid = uid_id.unwrap_or(0);
+        let user_sid = (!user_sids.is_empty()).then(|| user_sids[index] + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(0);
+        let timestamp = (!timestamps.is_empty()).then(|| {
+            let timestamp = timestamps[index] as i32 + last_timestamp;
+            timestamp * date_granularity
+        });
+        last_timestamp = timestamp.unwrap_or(0);
+        let timestamp = timestamp.map(|t| TimestampFormat::EpochNumber(t as i64));
+        assert!(uid_id.is_none_or(|uid_id| uid_id < i32::MAX));
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|u| u as u32),
+            _user: user_sid.map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: (!versions.is_empty()).then(|| versions[index] as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -263,30 +267,28 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
+        // info, or any part of it, can be left out
 
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -355,27 +357,26 @@ fn decode_relations(
             .filter_map(|((t, &id), r_opt)| r_opt.map(|r| (t, id, r)))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
+        // info, or any part of it, can be left out
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 567a054..b561376 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -114,6 +114,7 @@ fn decode_dense_nodes(
     let lons = &dense.lon;
     let denseinfo = &dense.denseinfo;
 
+    let versions = &denseinfo.version;
     let uids = &denseinfo.uid;
     let changesets = &denseinfo.changeset;
     let user_sids = &denseinfo.user_sid;
@@ -182,28 +183,31 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // The whole denseinfo, or any of it's columns, can be left out
+        let changeset_id = (!changesets.is_empty()).then(|| changesets[index] + last_changset);
+        last_changset = changeset_id.unwrap_or(0);
+        let uid_id = (!uids.is_empty()).then(|| uids[index] + last_uid);
+        last_uid = uid_id.unwrap_or(0);
+        let user_sid = (!user_sids.is_empty()).then(|| user_sids[index] + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(0);
+        let timestamp = (!timestamps.is_empty()).then(|| {
+            let timestamp = timestamps[index] as i32 + last_timestamp;
+            timestamp * date_granularity
+        });
+        last_timestamp = timestamp.unwrap_or(0);
+        let timestamp = timestamp.map(|t| TimestampFormat::EpochNumber(t as i64));
+        assert!(uid_id.is_none_or(|uid_id| uid_id < i32::MAX));
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|u| u as u32),
+            _user: user_sid.map(|sid| stringtable[sid as usize].clone()),
+            _version: (!versions.is_empty()).then(|| versions[index] as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -251,25 +255,28 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
+        // info, or any part of it, can be left out
 
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -337,23 +344,26 @@ fn decode_relations(
             .map(|((t, &id), r)| (t, id, r.clone()))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
+        // info, or any part of it, can be left out
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
-- 
2.43.0


From 756ed05d066f3bbe996dc7f2835cf2198befaf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 06/38] fix: PBF coordinates for any granularity and offset

---
 src/arcpbf/mod.rs            | 25 ++++++++-----------------
 src/stringpbf/mod.rs         | 25 ++++++++-----------------
 src/stringpbf/node_id_pos.rs | 25 ++++++++-----------------
 src/utils.rs                 |  7 +++++++
 4 files changed, 31 insertions(+), 51 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index d80b014..c91b724 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -10,7 +10,7 @@ use std::iter::Iterator;
 use std::sync::Arc;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
+use crate::utils::pbf_coord_to_inner;
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -127,8 +127,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -139,24 +139,15 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets are in nanodegrees
+        let internal_lat = pbf_coord_to_inner(lat_offset, granularity, raw_lat);
+        let internal_lon = pbf_coord_to_inner(lon_offset, granularity, raw_lon);
 
         let tags = if !has_tags {
             None
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index b561376..9c1d422 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -14,7 +14,7 @@ use std::io::{Cursor, Read};
 use std::iter::Iterator;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
+use crate::utils::pbf_coord_to_inner;
 
 use flate2::read::ZlibDecoder;
 
@@ -133,8 +133,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -145,24 +145,15 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets are in nanodegrees
+        let internal_lat = pbf_coord_to_inner(lat_offset, granularity, raw_lat);
+        let internal_lon = pbf_coord_to_inner(lon_offset, granularity, raw_lon);
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         while has_tags {
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..0b0b5b7 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -5,7 +5,7 @@ use std::iter::Iterator;
 use std::collections::VecDeque;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
+use crate::utils::pbf_coord_to_inner;
 use protobuf::Message;
 
 /// (node id, (latitude, longitude))
@@ -93,32 +93,23 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                // granularity & offsets are in nanodegrees
+                let internal_lat = pbf_coord_to_inner(*lat_offset, *granularity, raw_lat);
+                let internal_lon = pbf_coord_to_inner(*lon_offset, *granularity, raw_lon);
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..0e310f8 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -13,3 +13,10 @@ pub fn iso_to_epoch(iso: &str) -> u32 {
         .map(|x| x.timestamp() as u32)
         .unwrap_or(0)
 }
+
+/// Convert a PBF coordinate (`offset + granularity * raw` nanodegrees) to internal Lat/Lon units
+pub(crate) fn pbf_coord_to_inner(offset: i64, granularity: i32, raw: i64) -> i32 {
+    let nanodegrees = offset + i64::from(granularity) * raw;
+    i32::try_from(nanodegrees / i64::from(crate::COORD_PRECISION_NANOS))
+        .expect("coordinate was larger than the OSM precision allows")
+}
-- 
2.43.0


From fddabccb61fb5622aa97d63e4c10389ba2619250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 07/38] fix: PBF timestamps for any date granularity

---
 src/arcpbf/mod.rs    | 27 +++++++++++++++------------
 src/stringpbf/mod.rs | 27 +++++++++++++++------------
 src/utils.rs         |  5 +++++
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index c91b724..0f63942 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -10,7 +10,7 @@ use std::iter::Iterator;
 use std::sync::Arc;
 
 use super::*;
-use crate::utils::pbf_coord_to_inner;
+use crate::utils::{pbf_coord_to_inner, pbf_timestamp_to_epoch};
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -191,12 +191,10 @@ fn decode_dense_nodes(
         last_uid = uid_id.unwrap_or(0);
         let user_sid = (!user_sids.is_empty()).then(|| user_sids[index] + last_user_sid);
         last_user_sid = user_sid.unwrap_or(0);
-        let timestamp = (!timestamps.is_empty()).then(|| {
-            let timestamp = timestamps[index] as i32 + last_timestamp;
-            timestamp * date_granularity
-        });
-        last_timestamp = timestamp.unwrap_or(0);
-        let timestamp = timestamp.map(|t| TimestampFormat::EpochNumber(t as i64));
+        let raw_timestamp = (!timestamps.is_empty()).then(|| timestamps[index] + last_timestamp);
+        last_timestamp = raw_timestamp.unwrap_or(0);
+        let timestamp = raw_timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
         assert!(uid_id.is_none_or(|uid_id| uid_id < i32::MAX));
 
         results.push(ArcOSMObj::Node(ArcNode {
@@ -220,7 +218,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -265,7 +263,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -289,7 +290,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -353,7 +354,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -381,7 +385,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 9c1d422..8f6dd85 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -14,7 +14,7 @@ use std::io::{Cursor, Read};
 use std::iter::Iterator;
 
 use super::*;
-use crate::utils::pbf_coord_to_inner;
+use crate::utils::{pbf_coord_to_inner, pbf_timestamp_to_epoch};
 
 use flate2::read::ZlibDecoder;
 
@@ -181,12 +181,10 @@ fn decode_dense_nodes(
         last_uid = uid_id.unwrap_or(0);
         let user_sid = (!user_sids.is_empty()).then(|| user_sids[index] + last_user_sid);
         last_user_sid = user_sid.unwrap_or(0);
-        let timestamp = (!timestamps.is_empty()).then(|| {
-            let timestamp = timestamps[index] as i32 + last_timestamp;
-            timestamp * date_granularity
-        });
-        last_timestamp = timestamp.unwrap_or(0);
-        let timestamp = timestamp.map(|t| TimestampFormat::EpochNumber(t as i64));
+        let raw_timestamp = (!timestamps.is_empty()).then(|| timestamps[index] + last_timestamp);
+        last_timestamp = raw_timestamp.unwrap_or(0);
+        let timestamp = raw_timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
         assert!(uid_id.is_none_or(|uid_id| uid_id < i32::MAX));
 
         results.push_back(StringOSMObj::Node(StringNode {
@@ -211,7 +209,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -253,7 +251,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -279,7 +280,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -340,7 +341,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -372,7 +376,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         num_objects_written += decode_nodes(
diff --git a/src/utils.rs b/src/utils.rs
index 0e310f8..4307955 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -20,3 +20,8 @@ pub(crate) fn pbf_coord_to_inner(offset: i64, granularity: i32, raw: i64) -> i32
     i32::try_from(nanodegrees / i64::from(crate::COORD_PRECISION_NANOS))
         .expect("coordinate was larger than the OSM precision allows")
 }
+
+/// Convert a raw PBF timestamp (in units of `date_granularity` milliseconds) to seconds
+pub(crate) fn pbf_timestamp_to_epoch(date_granularity: i32, raw: i64) -> i64 {
+    raw * i64::from(date_granularity) / 1000
+}
-- 
2.43.0


From cc5b4a9d2ccda777eff26da80e74a4f55ff36840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 08/38] fix: skip PBF groups without nodes, ways and relations
 instead of panicking

---
 src/arcpbf/mod.rs            | 2 +-
 src/stringpbf/node_id_pos.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 0f63942..94db9b0 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -426,7 +426,7 @@ fn decode_primitive_group_to_objs(
             results,
         );
     } else {
-        unreachable!();
+        // an empty group, or one which has only changesets
     }
 }
 
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 0b0b5b7..a4c1753 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -115,7 +115,7 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
                 num_objects += 1;
             }
         } else {
-            unreachable!();
+            // an empty group, or one which has only changesets
         }
     }
 
-- 
2.43.0


From 33eba78bc3edabaeed3634448e58227d3dd6c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 09/38] fix: read plain (non-dense) PBF nodes

---
 src/arcpbf/mod.rs            | 56 ++++++++++++++++++++++++++++++------
 src/stringpbf/mod.rs         | 54 ++++++++++++++++++++++++++++------
 src/stringpbf/node_id_pos.rs |  7 ++++-
 3 files changed, 100 insertions(+), 17 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 94db9b0..c27eb50 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -83,15 +83,55 @@ impl<R: Read> FileReader<R> {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[Option<Arc<str>>],
-    _results: &mut [ArcOSMObj],
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[Option<Arc<str>>],
+    results: &mut Vec<ArcOSMObj>,
 ) {
-    unimplemented!("Dense node");
+    results.reserve(primitive_group.nodes.len());
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let tags: Vec<_> = keys
+            .zip(vals)
+            .filter_map(|(k, v)| match (k, v) {
+                (Some(k), Some(v)) => Some((k, v)),
+                _ => None,
+            })
+            .collect();
+
+        let lat = pbf_coord_to_inner(lat_offset, granularity, node.lat());
+        let lon = pbf_coord_to_inner(lon_offset, granularity, node.lon());
+
+        let timestamp = node
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
+
+        results.push(ArcOSMObj::Node(ArcNode {
+            _id: node.id() as ObjId,
+            _tags: if tags.is_empty() { None } else { Some(tags) },
+            _lat_lon: Some((Lat(lat), Lon(lon))),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|c| c as u32),
+            _uid: node.info.uid.map(|u| u as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: node.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
+        }));
+    }
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 8f6dd85..651e67d 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -87,15 +87,53 @@ impl<R: Read> FileReader<R> {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[SmolStr],
-    _sink: &mut VecDeque<StringOSMObj>,
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[SmolStr],
+    sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    unimplemented!("Dense node");
+    let mut num_objects_written = 0;
+    sink.reserve(primitive_group.nodes.len());
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
+        let tags: SmallVec<_> = keys.zip(vals).collect();
+
+        let lat = pbf_coord_to_inner(lat_offset, granularity, node.lat());
+        let lon = pbf_coord_to_inner(lon_offset, granularity, node.lon());
+
+        let timestamp = node
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(pbf_timestamp_to_epoch(date_granularity, t)));
+
+        sink.push_back(StringOSMObj::Node(StringNode {
+            _id: node.id() as ObjId,
+            _tags: tags,
+            _lat_lon: Some((Lat(lat), Lon(lon))),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|c| c as u32),
+            _uid: node.info.uid.map(|u| u as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: node.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
+        }));
+        num_objects_written += 1;
+    }
+    num_objects_written
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index a4c1753..473e565 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -80,7 +80,12 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
     for primitive_group in block.primitivegroup.iter() {
         if !primitive_group.nodes.is_empty() {
-            unimplemented!()
+            for node in primitive_group.nodes.iter() {
+                let lat = pbf_coord_to_inner(*lat_offset, *granularity, node.lat());
+                let lon = pbf_coord_to_inner(*lon_offset, *granularity, node.lon());
+                sink.push_back((node.id() as ObjId, (Lat(lat), Lon(lon))));
+                num_objects += 1;
+            }
         } else if !primitive_group.ways.is_empty() || !primitive_group.relations.is_empty() {
             continue;
         } else if primitive_group.dense.is_some() {
-- 
2.43.0


From 510f90b5b37351ffdbf3ac1e748a843147231e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 10/38] fix: stringpbf: nodes()/ways()/relations() don't hide
 objects from later reads

---
 src/stringpbf/mod.rs | 97 +++++++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 38 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 651e67d..50313fc 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -403,7 +403,6 @@ fn decode_relations(
     num_objects_written
 }
 
-#[allow(clippy::too_many_arguments)]
 fn decode_primitive_group_to_objs(
     primitive_group: &osmformat::PrimitiveGroup,
     granularity: i32,
@@ -411,11 +410,10 @@ fn decode_primitive_group_to_objs(
     lon_offset: i64,
     date_granularity: i32,
     stringtable: &[SmolStr],
-    object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let mut num_objects_written = 0;
-    if !primitive_group.nodes.is_empty() && object_filter.0 {
+    if !primitive_group.nodes.is_empty() {
         num_objects_written += decode_nodes(
             primitive_group,
             granularity,
@@ -425,7 +423,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if primitive_group.dense.is_some() && object_filter.0 {
+    } else if primitive_group.dense.is_some() {
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
@@ -435,7 +433,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if !primitive_group.ways.is_empty() && object_filter.1 {
+    } else if !primitive_group.ways.is_empty() {
         num_objects_written += decode_ways(
             primitive_group,
             granularity,
@@ -445,7 +443,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if !primitive_group.relations.is_empty() && object_filter.2 {
+    } else if !primitive_group.relations.is_empty() {
         num_objects_written += decode_relations(
             primitive_group,
             granularity,
@@ -456,17 +454,38 @@ fn decode_primitive_group_to_objs(
             sink,
         );
     } else {
-        // can happen if there is an object filter in operation
+        // an empty group, or one which has only changesets
     }
 
     num_objects_written
 }
 
+/// True iff this group can contain objects that this filter asks for
+fn group_matches_filter(
+    primitive_group: &osmformat::PrimitiveGroup,
+    object_filter: &ObjectFilter,
+) -> bool {
+    let has_nodes = !primitive_group.nodes.is_empty() || primitive_group.dense.is_some();
+    (has_nodes && object_filter.0)
+        || (!primitive_group.ways.is_empty() && object_filter.1)
+        || (!primitive_group.relations.is_empty() && object_filter.2)
+}
+
 fn decode_block_to_objs(
     mut block: osmformat::PrimitiveBlock,
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
+    // Either all or none of a block is decoded: a block with some objects that the filter asks for
+    // can also have other objects, which a later read with another filter must not miss.
+    if !block
+        .primitivegroup
+        .iter()
+        .any(|group| group_matches_filter(group, object_filter))
+    {
+        return 0;
+    }
+
     let raw_stringtable = block.stringtable.take().unwrap();
     let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
     stringtable.extend(
@@ -490,7 +509,6 @@ fn decode_block_to_objs(
             lon_offset,
             date_granularity,
             &stringtable,
-            object_filter,
             sink,
         );
     }
@@ -511,26 +529,51 @@ pub struct PBFReader<R: Read> {
     filereader: FileReader<R>,
     buffer: VecDeque<StringOSMObj>,
     _sorted_assumption: bool,
-    object_filter: ObjectFilter,
 }
 
 impl<R: Read> PBFReader<R> {
     /// Iterate over all the nodes in this source
     pub fn nodes(&mut self) -> impl Iterator<Item = StringNode> + '_ {
-        self.object_filter = (true, false, false);
-        self.objects().filter_map(|o| o.into_node())
+        std::iter::from_fn(|| self.next_filtered(&(true, false, false)))
+            .filter_map(|o| o.into_node())
     }
 
     /// Iterate over all the ways in this source
     pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
-        self.object_filter = (false, true, false);
-        self.objects().filter_map(|o| o.into_way())
+        std::iter::from_fn(|| self.next_filtered(&(false, true, false)))
+            .filter_map(|o| o.into_way())
     }
 
     /// Iterate over all the relations in this source
     pub fn relations(&mut self) -> impl Iterator<Item = StringRelation> + '_ {
-        self.object_filter = (false, false, true);
-        self.objects().filter_map(|o| o.into_relation())
+        std::iter::from_fn(|| self.next_filtered(&(false, false, true)))
+            .filter_map(|o| o.into_relation())
+    }
+
+    /// The next object, but blocks where this filter matches nothing are skipped.
+    fn next_filtered(&mut self, object_filter: &ObjectFilter) -> Option<StringOSMObj> {
+        let mut blob_data = Vec::new();
+        while self.buffer.is_empty() {
+            // get the next file block and fill up our buffer
+            // FIXME make this parallel
+
+            // get the next block
+            let mut blob = self.filereader.next()?;
+
+            blob_data.clear();
+            blob_raw_data(&mut blob, &mut blob_data, object_filter);
+            if blob_data.is_empty() {
+                // maybe the filter meant nothing was read
+                continue;
+            }
+            let block: osmformat::PrimitiveBlock =
+                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
+
+            // Turn a block into OSM objects
+            decode_block_to_objs(block, object_filter, &mut self.buffer);
+        }
+
+        self.buffer.pop_front()
     }
 }
 
@@ -551,7 +594,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
             filereader: FileReader::new(reader),
             buffer: VecDeque::new(),
             _sorted_assumption: false,
-            object_filter: (true, true, true),
         }
     }
 
@@ -571,27 +613,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-        let mut blob_data = Vec::new();
-        while self.buffer.is_empty() {
-            // get the next file block and fill up our buffer
-            // FIXME make this parallel
-
-            // get the next block
-            let mut blob = self.filereader.next()?;
-
-            blob_data.clear();
-            blob_raw_data(&mut blob, &mut blob_data, &self.object_filter);
-            if blob_data.is_empty() {
-                // maybe the filter meant nothing was read
-                continue;
-            }
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
-
-            // Turn a block into OSM objects
-            decode_block_to_objs(block, &self.object_filter, &mut self.buffer);
-        }
-
-        self.buffer.pop_front()
+        self.next_filtered(&(true, true, true))
     }
 }
-- 
2.43.0


From 070bb467726b96330c5c1f618286fae05287a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 11/38] fix: stringpbf: don't silently skip blobs with an
 unsupported compression

---
 src/stringpbf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 50313fc..8a266ca 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -41,6 +41,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
+    } else {
+        panic!("PBF blob is neither raw nor zlib compressed, which is not supported");
     }
 }
 
-- 
2.43.0


From 6182a868da517f3ab3e3ea6ac1fd63598bdbb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 12/38] fix: arcpbf: read compressed blobs without a raw_size

---
 src/arcpbf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index c27eb50..f3b3fa1 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -31,7 +31,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap() as usize);
+        let mut bytes = Vec::with_capacity(blob.raw_size() as usize);
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
-- 
2.43.0


From 53da06748cc3c54a3649ddb03c4250c37db84069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 13/38] fix: PBF: an I/O error or a cut-off blob size is not
 the end of the file

---
 src/arcpbf/mod.rs    | 17 ++++++++++++++---
 src/stringpbf/mod.rs | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index f3b3fa1..e89c7b0 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -55,9 +55,20 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // Only the end of the file right here, between 2 blobs, is the end of the data.
+            let mut size_bytes = Vec::with_capacity(4);
+            self.reader
+                .by_ref()
+                .take(4)
+                .read_to_end(&mut size_bytes)
+                .unwrap();
+            if size_bytes.is_empty() {
+                return None;
+            }
+            let size = size_bytes
+                .as_slice()
+                .read_u32::<byteorder::BigEndian>()
+                .unwrap();
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 8a266ca..c337a86 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -61,9 +61,20 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // Only the end of the file right here, between 2 blobs, is the end of the data.
+            let mut size_bytes = Vec::with_capacity(4);
+            self.reader
+                .by_ref()
+                .take(4)
+                .read_to_end(&mut size_bytes)
+                .unwrap();
+            if size_bytes.is_empty() {
+                return None;
+            }
+            let size = size_bytes
+                .as_slice()
+                .read_u32::<byteorder::BigEndian>()
+                .unwrap();
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
-- 
2.43.0


From d7153ac3c5448f0add51e701b36f3f6029b1a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 14/38] fix: XML/OSC: nodes without a position don't end the
 reading

---
 src/xml/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..18ca00d 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -262,13 +262,10 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
-
-    let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
-        _errs => None,
-    };
+    // Deleted nodes don't have a lat & lon
+    let lat = get_xml_attribute(attrs, "lat").and_then(|x| x.parse().ok());
+    let lon = get_xml_attribute(attrs, "lon").and_then(|x| x.parse().ok());
+    let lat_lon = lat.zip(lon);
     let deleted = get_xml_attribute(attrs, "visible")
         .and_then(|val| match val.as_str() {
             "true" => Some(false),
-- 
2.43.0


From d22da404ea98b9a62455161198fc79d1a0167a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 15/38] fix: XML/OSC: an object without a usable id doesn't end
 the reading

---
 src/osc/mod.rs | 12 ++++++++----
 src/xml/mod.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..50228d9 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -54,7 +54,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
         loop {
             let el = match self.parser.next() {
                 None => {
-                    break;
+                    return None;
                 }
                 Some(e) => e,
             };
@@ -82,11 +82,15 @@ impl<R: Read> OSMReader for OSCReader<R> {
                 elements.push(el);
             }
             if should_break {
-                break;
+                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                    return Some(obj);
+                }
+                // Not something we can make an object from (e.g. it has no id), keep going to the
+                // next one
+                elements.clear();
+                should_push = false;
             }
         }
-
-        xml_elements_to_osm_obj(&mut elements)
     }
 }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 18ca00d..452b77f 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -96,7 +96,7 @@ impl<R: Read> OSMReader for XMLReader<R> {
         loop {
             let el = match self.parser.next() {
                 None => {
-                    break;
+                    return None;
                 }
                 Some(e) => e,
             };
@@ -124,11 +124,15 @@ impl<R: Read> OSMReader for XMLReader<R> {
                 elements.push(el);
             }
             if should_break {
-                break;
+                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                    return Some(obj);
+                }
+                // Not something we can make an object from (e.g. it has no id), keep going to the
+                // next one
+                elements.clear();
+                should_push = false;
             }
         }
-
-        xml_elements_to_osm_obj(&mut elements)
     }
 }
 
-- 
2.43.0


From f94ec3df72c2eeaa8545c01500d227c47a2ae331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 16/38] fix: XML/OSC: write objects without a version instead
 of panicking

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 50228d9..7c658ab 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -166,7 +166,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 452b77f..e3213d5 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -449,7 +449,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From d2e95b329cefa82d5db691d0b277a9ad21c9117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 17/38] fix: XML/OSC: dropping a writer with a failing sink
 doesn't panic

---
 src/osc/mod.rs | 3 ++-
 src/xml/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 7c658ab..39f3e2b 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -246,6 +246,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
 impl<W: Write> Drop for OSCWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // There is no way to report an error here, call close() to know about errors
+        let _ = self.close();
     }
 }
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index e3213d5..3b39499 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -529,7 +529,8 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
 impl<W: Write> Drop for XMLWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // There is no way to report an error here, call close() to know about errors
+        let _ = self.close();
     }
 }
 
-- 
2.43.0


From 8d653b7ff67e09bfac08234ddadbb3b273dd524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 18/38] fix: XML/OSC: keep tabs and newlines in written
 attributes

---
 src/osc/mod.rs | 10 +++++-----
 src/xml/mod.rs | 21 ++++++++++++++++-----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 39f3e2b..ef58cc6 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_escaped, xml_elements_to_osm_obj};
+use crate::xml::{write_xml_attr_escaped, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -171,7 +171,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -211,7 +211,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -219,9 +219,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 3b39499..a0af649 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -70,6 +70,17 @@ pub(crate) fn write_xml_escaped(writer: &mut impl Write, s: &str) -> std::io::Re
     Ok(())
 }
 
+/// Escape the value of an attribute. A literal tab or newline would be read as a space.
+pub(crate) fn write_xml_attr_escaped(writer: &mut impl Write, s: &str) -> std::io::Result<()> {
+    for c in s.chars() {
+        match c {
+            '\t' | '\n' | '\r' => write!(writer, "&#{};", c as u32)?,
+            c => write_xml_escaped(writer, c.encode_utf8(&mut [0; 4]))?,
+        }
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -381,7 +392,7 @@ impl<W: Write> XMLWriter<W> {
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-                write_xml_escaped(&mut self.writer, v)?;
+                write_xml_attr_escaped(&mut self.writer, v)?;
                 write!(self.writer, "\"")?;
             }
             write!(self.writer, ">")?;
@@ -454,7 +465,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -494,7 +505,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -502,9 +513,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
-- 
2.43.0


From 85dd836c9f9432a1307ccb28cbbb0c27c6b664ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 19/38] fix: changesets: a file ending inside a changeset is an
 error, not an endless loop

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..31943da 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -204,6 +204,7 @@ impl<R: Read> ChangesetReader<R> {
                                 ensure!(v.is_some(), "No v for tag");
                                 tags.insert(k.unwrap(), v.unwrap());
                             }
+                            Event::Eof => bail!("Unexpected end of file in a changeset"),
                             _ => continue,
                         }
                     }
-- 
2.43.0


From 4de2b0216895e3fa64d41847f05635cbe8008ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 20/38] fix: changesets: tags of a changeset without id aren't
 given the previous id

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 31943da..e8ae40c 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -359,6 +359,7 @@ impl<R: Read> ChangesetTagReader<R> {
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
+                    self.curr_id = None;
                     for attr in e.attributes() {
                         let attr = attr?;
                         if attr.key.local_name().as_ref() == b"id" {
-- 
2.43.0


From 5d94c50a7e14a19ba1e068076593c1648702adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 21/38] fix: convert timestamps before 1970 and after 2038

---
 src/lib.rs   |  6 +++---
 src/utils.rs | 13 ++++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..f86dbc9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,7 @@ use std::io::{BufReader, Read, Write};
 use std::iter::{ExactSizeIterator, Iterator};
 use std::path::Path;
 use std::str::FromStr;
-use utils::{epoch_to_iso, iso_to_epoch};
+use utils::{epoch64_to_iso, iso_to_epoch64};
 
 use anyhow::Result;
 
@@ -255,13 +255,13 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch64_to_iso(*t),
         }
     }
 
     pub fn to_epoch_number(&self) -> i64 {
         match self {
-            TimestampFormat::ISOString(s) => iso_to_epoch(s) as i64,
+            TimestampFormat::ISOString(s) => iso_to_epoch64(s),
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index 4307955..07f8ab0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,15 +2,22 @@
 use chrono::{DateTime, offset::Utc};
 
 pub fn epoch_to_iso(epoch: i32) -> String {
+    epoch64_to_iso(epoch.into())
+}
+
+pub(crate) fn epoch64_to_iso(epoch: i64) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
-    let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+    let d: DateTime<Utc> = DateTime::from_timestamp(epoch, 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
 pub fn iso_to_epoch(iso: &str) -> u32 {
+    iso_to_epoch64(iso) as u32
+}
+
+pub(crate) fn iso_to_epoch64(iso: &str) -> i64 {
     DateTime::parse_from_rfc3339(iso)
-        .map(|x| x.timestamp() as u32)
+        .map(|x| x.timestamp())
         .unwrap_or(0)
 }
 
-- 
2.43.0


From aa72b678c21e66502b062f861422563a3283e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 22/38] fix: don't turn NaN into a position of 0

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f86dbc9..3618021 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,6 +159,7 @@ macro_rules! lat_lon_impl {
                 match (f64::from_str(s)? * COORD_SCALE_FACTOR).round() {
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
+                    x if x.is_nan() => Err(ParseLatLonError::NotANumber),
                     x => Ok(Self(x as i32)),
                 }
             }
@@ -176,6 +177,7 @@ macro_rules! lat_lon_impl {
                 match (val * COORD_SCALE_FACTOR).round() {
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
+                    x if x.is_nan() => Err(ParseLatLonError::NotANumber),
                     x => Ok(Self(x as i32)),
                 }
             }
@@ -213,6 +215,9 @@ pub enum ParseLatLonError {
     /// This should never happen for "normal" Lats and Lons, i.e. those between (-90..90) or
     /// (-180..+180), respectively.
     TooSmall(f64),
+
+    /// The float was NaN
+    NotANumber,
 }
 
 impl std::error::Error for ParseLatLonError {
@@ -231,6 +236,7 @@ impl Display for ParseLatLonError {
             Self::ParseFloatError(inner) => Display::fmt(inner, f),
             Self::TooLarge(float) => write!(f, "{} is too large to represent as a Lat/Lon", float),
             Self::TooSmall(float) => write!(f, "{} is too small to represent as a Lat/Lon", float),
+            Self::NotANumber => write!(f, "NaN cannot be represented as a Lat/Lon"),
         }
     }
 }
-- 
2.43.0


From 90e2c6cb2029cd668943e77451c59088571e3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 23/38] fix: Arc/Rc nodes without tags are equal however that
 is stored

---
 src/obj_types/arc_types.rs | 20 +++++++++++++++++++-
 src/obj_types/rc_types.rs  | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/obj_types/arc_types.rs b/src/obj_types/arc_types.rs
index fd97482..16e8215 100644
--- a/src/obj_types/arc_types.rs
+++ b/src/obj_types/arc_types.rs
@@ -22,7 +22,7 @@ macro_rules! func_call_inner_set {
     };
 }
 
-#[derive(PartialEq, Debug, Clone)]
+#[derive(Debug, Clone)]
 pub struct ArcNode {
     pub(crate) _id: ObjId,
     pub(crate) _version: Option<u32>,
@@ -36,6 +36,24 @@ pub struct ArcNode {
     pub(crate) _lat_lon: Option<(Lat, Lon)>,
 }
 
+impl PartialEq for ArcNode {
+    fn eq(&self, other: &Self) -> bool {
+        // No tags can be stored in 2 ways
+        let tags = self._tags.as_deref().unwrap_or_default();
+        let other_tags = other._tags.as_deref().unwrap_or_default();
+
+        self._id == other._id
+            && self._version == other._version
+            && self._deleted == other._deleted
+            && self._changeset_id == other._changeset_id
+            && self._timestamp == other._timestamp
+            && self._uid == other._uid
+            && self._user == other._user
+            && tags == other_tags
+            && self._lat_lon == other._lat_lon
+    }
+}
+
 #[derive(PartialEq, Debug, Clone)]
 pub struct ArcWay {
     pub(crate) _id: ObjId,
diff --git a/src/obj_types/rc_types.rs b/src/obj_types/rc_types.rs
index 6177f4f..78c1d31 100644
--- a/src/obj_types/rc_types.rs
+++ b/src/obj_types/rc_types.rs
@@ -22,7 +22,7 @@ macro_rules! func_call_inner_set {
     };
 }
 
-#[derive(Clone, PartialEq, Debug)]
+#[derive(Clone, Debug)]
 pub struct RcNode {
     pub(crate) _id: ObjId,
     pub(crate) _version: Option<u32>,
@@ -36,6 +36,24 @@ pub struct RcNode {
     pub(crate) _lat_lon: Option<(Lat, Lon)>,
 }
 
+impl PartialEq for RcNode {
+    fn eq(&self, other: &Self) -> bool {
+        // No tags can be stored in 2 ways
+        let tags = self._tags.as_deref().unwrap_or_default();
+        let other_tags = other._tags.as_deref().unwrap_or_default();
+
+        self._id == other._id
+            && self._version == other._version
+            && self._deleted == other._deleted
+            && self._changeset_id == other._changeset_id
+            && self._timestamp == other._timestamp
+            && self._uid == other._uid
+            && self._user == other._user
+            && tags == other_tags
+            && self._lat_lon == other._lat_lon
+    }
+}
+
 #[derive(Clone, PartialEq, Debug)]
 pub struct RcWay {
     pub(crate) _id: ObjId,
-- 
2.43.0


From 7a32fca279f54cf72d37c2370cbf52dcf4067996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 24/38] verification hooks, behind cfg(osmio_verif)

---
 src/changesets.rs  |  5 +++++
 src/lib.rs         |  6 +++++
 src/verif_hooks.rs | 56 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 67 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/changesets.rs b/src/changesets.rs
index e8ae40c..b776014 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -339,6 +339,11 @@ impl<R: Read> ChangesetTagReader<R> {
         }
     }
 
+    #[cfg(osmio_verif)]
+    pub(crate) fn verif_new(reader: R) -> Self {
+        Self::new(reader)
+    }
+
     /// The next changeset (& it's tags)
     #[allow(clippy::type_complexity)]
     fn next_tag(&mut self) -> Result<Option<(u64, Vec<(String, String)>)>> {
diff --git a/src/lib.rs b/src/lib.rs
index 3618021..1d3e48a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,9 @@
 //! }
 //! # Ok::<(), anyhow::Error>(())
 //! ```
+// for cfg(osmio_verif)
+#![allow(unexpected_cfgs)]
+
 extern crate byteorder;
 extern crate chrono;
 extern crate flate2;
@@ -58,6 +61,9 @@ mod tests;
 
 pub mod changesets;
 
+#[cfg(osmio_verif)]
+pub mod verif_hooks;
+
 /// Type that stores the OSM Id
 pub type ObjId = i64;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..65b82a9
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,56 @@
+//! Entry points for the verification harness, only compiled with `--cfg osmio_verif`.
+use crate::changesets::ChangesetTagReader;
+use crate::obj_types::*;
+use crate::{OSMObjectType, ObjId};
+use std::io::Read;
+
+macro_rules! new_objs {
+    ($func:ident, $any:ident, $node:ident, $way:ident, $relation:ident) => {
+        /// A new object of this type with only an id
+        pub fn $func(object_type: OSMObjectType, id: ObjId) -> $any {
+            match object_type {
+                OSMObjectType::Node => $any::Node($node {
+                    _id: id,
+                    _version: None,
+                    _deleted: false,
+                    _changeset_id: None,
+                    _timestamp: None,
+                    _uid: None,
+                    _user: None,
+                    _tags: Default::default(),
+                    _lat_lon: None,
+                }),
+                OSMObjectType::Way => $any::Way($way {
+                    _id: id,
+                    _version: None,
+                    _deleted: false,
+                    _changeset_id: None,
+                    _timestamp: None,
+                    _uid: None,
+                    _user: None,
+                    _tags: Default::default(),
+                    _nodes: Default::default(),
+                }),
+                OSMObjectType::Relation => $any::Relation($relation {
+                    _id: id,
+                    _version: None,
+                    _deleted: false,
+                    _changeset_id: None,
+                    _timestamp: None,
+                    _uid: None,
+                    _user: None,
+                    _tags: Default::default(),
+                    _members: Default::default(),
+                }),
+            }
+        }
+    };
+}
+
+new_objs!(new_rc_obj, RcOSMObj, RcNode, RcWay, RcRelation);
+new_objs!(new_arc_obj, ArcOSMObj, ArcNode, ArcWay, ArcRelation);
+
+/// Read changeset tags from any (uncompressed) source
+pub fn changeset_tag_reader<R: Read>(reader: R) -> ChangesetTagReader<R> {
+    ChangesetTagReader::verif_new(reader)
+}
-- 
2.43.0


From 286283e71ed718829e6fa1b12d867fdc2329c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 25/38] fix: changesets: decode XML escapes in the open
 attribute too

---
 src/changesets.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index b776014..227a179 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -137,11 +137,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
@@ -240,11 +242,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
-- 
2.43.0


From 5010b0a31dcb2d5d9dddc3eb47526b29c4d5dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 26/38] fix: changeset tags: input which ends inside a
 changeset is an error

---
 src/changesets.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 227a179..fed79a9 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -355,16 +355,18 @@ impl<R: Read> ChangesetTagReader<R> {
         loop {
             match self.reader.read_event_into(&mut buf)? {
                 Event::Eof => {
+                    ensure!(
+                        self.curr_id.take().is_none(),
+                        "Unexpected end of file in a changeset"
+                    );
                     return Ok(None);
                 }
                 Event::End(ref e) => {
                     if e.name().local_name().as_ref() == b"changeset" {
-                        ensure!(self.curr_id.is_some(), "Should be an id set");
+                        let id = self.curr_id.take();
+                        ensure!(id.is_some(), "Should be an id set");
 
-                        return Ok(Some((
-                            self.curr_id.unwrap(),
-                            std::mem::take(&mut self.tags),
-                        )));
+                        return Ok(Some((id.unwrap(), std::mem::take(&mut self.tags))));
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
-- 
2.43.0


From 44b8bbf5984406f855d3ba928c6ca6f80c4af767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:55 +0000
Subject: [PATCH 27/38] fix: changesets: do not read from a source again after
 it failed

---
 src/changesets.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index fed79a9..b9cd0f3 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -82,6 +82,22 @@ impl Changeset {
 pub struct ChangesetReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     buf: Vec<u8>,
+    failed: bool,
+}
+
+/// The next XML event. After the source has failed it is not read from again (a bzip2 decompressor
+/// must not be used after an error).
+fn read_event<'b, R: Read>(
+    reader: &mut quick_xml::Reader<BufReader<R>>,
+    failed: &mut bool,
+    buf: &'b mut Vec<u8>,
+) -> Result<Event<'b>> {
+    if *failed {
+        return Ok(Event::Eof);
+    }
+    let event = reader.read_event_into(buf);
+    *failed = matches!(event, Err(quick_xml::Error::Io(_)));
+    Ok(event?)
 }
 
 impl<R: Read> ChangesetReader<R> {
@@ -92,6 +108,7 @@ impl<R: Read> ChangesetReader<R> {
         ChangesetReader {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             buf: Vec::new(),
+            failed: false,
         }
     }
 
@@ -109,7 +126,7 @@ impl<R: Read> ChangesetReader<R> {
         self.buf.clear();
         let changeset;
         loop {
-            match self.reader.read_event_into(&mut self.buf)? {
+            match read_event(&mut self.reader, &mut self.failed, &mut self.buf)? {
                 Event::Eof => {
                     return Ok(None);
                 }
@@ -172,7 +189,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut tags = HashMap::new();
                     let mut buf = Vec::new();
                     loop {
-                        match self.reader.read_event_into(&mut buf)? {
+                        match read_event(&mut self.reader, &mut self.failed, &mut buf)? {
                             Event::End(ref e) => {
                                 if e.name().local_name().as_ref() == "changeset".as_bytes() {
                                     break;
@@ -322,6 +339,7 @@ pub struct ChangesetTagReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     curr_id: Option<u64>,
     tags: Vec<(String, String)>,
+    failed: bool,
 }
 
 impl ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>> {
@@ -340,6 +358,7 @@ impl<R: Read> ChangesetTagReader<R> {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             curr_id: None,
             tags: Vec::new(),
+            failed: false,
         }
     }
 
@@ -353,7 +372,7 @@ impl<R: Read> ChangesetTagReader<R> {
     fn next_tag(&mut self) -> Result<Option<(u64, Vec<(String, String)>)>> {
         let mut buf = Vec::new();
         loop {
-            match self.reader.read_event_into(&mut buf)? {
+            match read_event(&mut self.reader, &mut self.failed, &mut buf)? {
                 Event::Eof => {
                     ensure!(
                         self.curr_id.take().is_none(),
-- 
2.43.0


From c8832553b3f2495512b22a235aef558d81a87119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:07 +0000
Subject: [PATCH 28/38] fix: writers: closing flushes the sink and reports when
 that fails

---
 src/osc/mod.rs | 3 +++
 src/xml/mod.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ef58cc6..8b55bd0 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -139,6 +139,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, "\n</osmChange>")?;
 
             self._state = State::Closed;
+
+            // or it is not known whether a buffering writer gets rid of all of it
+            self.writer.flush()?;
         }
 
         Ok(())
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index a0af649..dec5beb 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -435,6 +435,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         self._state = State::Closed;
 
+        // or it is not known whether a buffering writer gets rid of all of it
+        self.writer.flush()?;
+
         Ok(())
     }
 
-- 
2.43.0


From 8711c7f1b92ff14f3b02ec5f73e0c8b4dcb2ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 29/38] fix: pbf: an empty dense nodes message no longer hides
 the ways or relations of its group

---
 src/arcpbf/mod.rs    | 2 +-
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index e89c7b0..5c67e98 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -446,7 +446,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             results,
         );
-    } else if primitive_group.dense.is_some() {
+    } else if !primitive_group.dense.id.is_empty() {
         decode_dense_nodes(
             primitive_group,
             granularity,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index c337a86..b0b688c 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -436,7 +436,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if primitive_group.dense.is_some() {
+    } else if !primitive_group.dense.id.is_empty() {
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
@@ -478,7 +478,7 @@ fn group_matches_filter(
     primitive_group: &osmformat::PrimitiveGroup,
     object_filter: &ObjectFilter,
 ) -> bool {
-    let has_nodes = !primitive_group.nodes.is_empty() || primitive_group.dense.is_some();
+    let has_nodes = !primitive_group.nodes.is_empty() || !primitive_group.dense.id.is_empty();
     (has_nodes && object_filter.0)
         || (!primitive_group.ways.is_empty() && object_filter.1)
         || (!primitive_group.relations.is_empty() && object_filter.2)
-- 
2.43.0


From 99513a164ac8b8b8a8f455fa42608b43d83934c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 30/38] fix: xml: setting the header version or generator no
 longer writes that attribute twice

---
 src/xml/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index dec5beb..e3506bb 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -384,11 +384,14 @@ impl<W: Write> XMLWriter<W> {
     fn ensure_header(&mut self) -> Result<(), OSMWriteError> {
         if self._state == State::Initial {
             writeln!(self.writer, "<?xml version=\"1.0\" encoding=\"utf-8\"?>")?;
-            write!(
-                self.writer,
-                "<osm version=\"0.6\" generator=\"osmio/{}\"",
-                version()
-            )?;
+            write!(self.writer, "<osm")?;
+            // An attribute must not be there twice
+            if !self.headers.contains_key("version") {
+                write!(self.writer, " version=\"0.6\"")?;
+            }
+            if !self.headers.contains_key("generator") {
+                write!(self.writer, " generator=\"osmio/{}\"", version())?;
+            }
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-- 
2.43.0


From 6263080023238e2bb9ad75aef2a2961548cb2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 31/38] fix: xml, osc: timestamps are escaped too, they can be
 any text

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 8b55bd0..bcfef20 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -184,7 +184,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index e3506bb..306a9c3 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -481,7 +481,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
-- 
2.43.0


From 15e4719229a36df1360c623818b49104cc1f77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 32/38] fix: changesets: after an error in a changeset the tag
 reader no longer delivers the rest of its tags as that changeset

---
 src/changesets.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index b9cd0f3..556f0f8 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -434,6 +434,11 @@ impl<R: Read> Iterator for ChangesetTagReader<R> {
     type Item = Result<(u64, Vec<(String, String)>)>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next_tag().transpose()
+        let next = self.next_tag();
+        if next.is_err() {
+            // the rest of a damaged changeset is not a changeset
+            self.curr_id = None;
+        }
+        next.transpose()
     }
 }
-- 
2.43.0


From 73e3c5cd33a33c832b9ace819e22b47bd33541d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:00 +0000
Subject: [PATCH 33/38] fix: changesets: a changeset inside a changeset (a lost
 end tag) is an error, its tags were taken for those of the outer one

---
 src/changesets.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 556f0f8..966c3db 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -196,6 +196,10 @@ impl<R: Read> ChangesetReader<R> {
                                 }
                             }
                             Event::Start(ref e) | Event::Empty(ref e) => {
+                                ensure!(
+                                    e.name().local_name().as_ref() != b"changeset",
+                                    "A changeset in a changeset"
+                                );
                                 if e.name().local_name().as_ref() != "tag".as_bytes() {
                                     continue;
                                 }
@@ -389,7 +393,10 @@ impl<R: Read> ChangesetTagReader<R> {
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
-                    self.curr_id = None;
+                    ensure!(
+                        self.curr_id.take().is_none(),
+                        "A changeset in a changeset"
+                    );
                     for attr in e.attributes() {
                         let attr = attr?;
                         if attr.key.local_name().as_ref() == b"id" {
-- 
2.43.0


From e15ffd3e4edf3e4b9dd40f93b35162a2506564c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:49 +0000
Subject: [PATCH 34/38] fix: sqlite tool: more changesets than the assumed 110
 million no longer panic when the progress is printed

---
 src/bin/osmio-changeset-tags-to-sqlite.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/osmio-changeset-tags-to-sqlite.rs b/src/bin/osmio-changeset-tags-to-sqlite.rs
index 675bda0..f7aa3b7 100644
--- a/src/bin/osmio-changeset-tags-to-sqlite.rs
+++ b/src/bin/osmio-changeset-tags-to-sqlite.rs
@@ -76,8 +76,11 @@ fn main() -> Result<()> {
                     state.duration_since_start().as_secs(),
                     state.num_done() / 1000,
                     state.percent().unwrap_or(0.),
+                    // there is no time left if there is more than was assumed, and eta() panics
                     state
-                        .eta()
+                        .fraction()
+                        .filter(|f| *f <= 1.)
+                        .and_then(|_| state.eta())
                         .map_or_else(|| "N/A".to_string(), |d| d.as_secs().to_string()),
                     state.rate()
                 );
-- 
2.43.0


From 5338af72f5008dede0b831611c71abd3cc1fe426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 35/38] verification hook, behind cfg(osmio_verif): sqlite
 tool: the assumed number of changesets

---
 src/bin/osmio-changeset-tags-to-sqlite.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/bin/osmio-changeset-tags-to-sqlite.rs b/src/bin/osmio-changeset-tags-to-sqlite.rs
index f7aa3b7..69c54f6 100644
--- a/src/bin/osmio-changeset-tags-to-sqlite.rs
+++ b/src/bin/osmio-changeset-tags-to-sqlite.rs
@@ -1,3 +1,6 @@
+// for cfg(osmio_verif)
+#![allow(unexpected_cfgs)]
+
 extern crate anyhow;
 extern crate iter_progress;
 extern crate osmio;
@@ -13,6 +16,18 @@ use osmio::changesets::ChangesetTagReader;
 use std::env::args;
 use std::path::PathBuf;
 
+/// How many changesets there are about, for the progress
+fn assumed_size() -> usize {
+    #[cfg(osmio_verif)]
+    if let Some(n) = std::env::var("OSMIO_VERIF_ASSUMED_SIZE")
+        .ok()
+        .and_then(|n| n.parse().ok())
+    {
+        return n;
+    }
+    110_000_000
+}
+
 fn main() -> Result<()> {
     let changeset_filename = args().nth(1).expect("provide osc filename as arg 1");
     let sqlite_filename = PathBuf::from(args().nth(2).expect("provide sqlite filename as arg 1"));
@@ -67,7 +82,7 @@ fn main() -> Result<()> {
     for (state, changeset_res) in osc
         .into_iter()
         .optional_progress(10000)
-        .assume_size(110_000_000)
+        .assume_size(assumed_size())
     {
         if let Some(state) = state {
             state.do_every_n_sec(2.0_f32, |state| {
-- 
2.43.0


From fb6ccd7313fc79bd93cce74ea05543c36faf50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:27 +0000
Subject: [PATCH 36/38] fix: changesets: input that ends before the root
 element does is an error, not the end

---
 src/changesets.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 966c3db..dfb8c13 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -82,22 +82,42 @@ impl Changeset {
 pub struct ChangesetReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     buf: Vec<u8>,
+    state: ReadState,
+}
+
+/// Where reading has got to
+#[derive(Default)]
+struct ReadState {
+    /// The source has failed
     failed: bool,
+    /// How many elements are open
+    depth: usize,
 }
 
 /// The next XML event. After the source has failed it is not read from again (a bzip2 decompressor
 /// must not be used after an error).
 fn read_event<'b, R: Read>(
     reader: &mut quick_xml::Reader<BufReader<R>>,
-    failed: &mut bool,
+    state: &mut ReadState,
     buf: &'b mut Vec<u8>,
 ) -> Result<Event<'b>> {
-    if *failed {
+    if state.failed {
         return Ok(Event::Eof);
     }
     let event = reader.read_event_into(buf);
-    *failed = matches!(event, Err(quick_xml::Error::Io(_)));
-    Ok(event?)
+    state.failed = matches!(event, Err(quick_xml::Error::Io(_)));
+    let event = event?;
+    match event {
+        Event::Start(_) => state.depth += 1,
+        Event::End(_) => state.depth = state.depth.saturating_sub(1),
+        // elements that are left open are no error for the XML parser
+        Event::Eof => ensure!(
+            std::mem::take(&mut state.depth) == 0,
+            "Unexpected end of file"
+        ),
+        _ => {}
+    }
+    Ok(event)
 }
 
 impl<R: Read> ChangesetReader<R> {
@@ -108,7 +128,7 @@ impl<R: Read> ChangesetReader<R> {
         ChangesetReader {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             buf: Vec::new(),
-            failed: false,
+            state: ReadState::default(),
         }
     }
 
@@ -126,7 +146,7 @@ impl<R: Read> ChangesetReader<R> {
         self.buf.clear();
         let changeset;
         loop {
-            match read_event(&mut self.reader, &mut self.failed, &mut self.buf)? {
+            match read_event(&mut self.reader, &mut self.state, &mut self.buf)? {
                 Event::Eof => {
                     return Ok(None);
                 }
@@ -189,7 +209,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut tags = HashMap::new();
                     let mut buf = Vec::new();
                     loop {
-                        match read_event(&mut self.reader, &mut self.failed, &mut buf)? {
+                        match read_event(&mut self.reader, &mut self.state, &mut buf)? {
                             Event::End(ref e) => {
                                 if e.name().local_name().as_ref() == "changeset".as_bytes() {
                                     break;
@@ -343,7 +363,7 @@ pub struct ChangesetTagReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     curr_id: Option<u64>,
     tags: Vec<(String, String)>,
-    failed: bool,
+    state: ReadState,
 }
 
 impl ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>> {
@@ -362,7 +382,7 @@ impl<R: Read> ChangesetTagReader<R> {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             curr_id: None,
             tags: Vec::new(),
-            failed: false,
+            state: ReadState::default(),
         }
     }
 
@@ -376,7 +396,7 @@ impl<R: Read> ChangesetTagReader<R> {
     fn next_tag(&mut self) -> Result<Option<(u64, Vec<(String, String)>)>> {
         let mut buf = Vec::new();
         loop {
-            match read_event(&mut self.reader, &mut self.failed, &mut buf)? {
+            match read_event(&mut self.reader, &mut self.state, &mut buf)? {
                 Event::Eof => {
                     ensure!(
                         self.curr_id.take().is_none(),
-- 
2.43.0


From d9d1427ddfc759e594aa6870c8916bb6cb08167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:31 +0000
Subject: [PATCH 37/38] fix: pbf: a version, changeset or uid of -1 (not known)
 is unset, it was 4294967295

---
 src/arcpbf/mod.rs    | 32 +++++++++++++++++---------------
 src/stringpbf/mod.rs | 32 +++++++++++++++++---------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 5c67e98..4b26d56 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -133,13 +133,13 @@ fn decode_nodes(
             _tags: if tags.is_empty() { None } else { Some(tags) },
             _lat_lon: Some((Lat(lat), Lon(lon))),
             _deleted: !node.info.visible.unwrap_or(true),
-            _changeset_id: node.info.changeset.map(|c| c as u32),
-            _uid: node.info.uid.map(|u| u as u32),
+            _changeset_id: node.info.changeset.and_then(|c| u32::try_from(c).ok()),
+            _uid: node.info.uid.and_then(|u| u32::try_from(u).ok()),
             _user: node
                 .info
                 .user_sid
                 .map(|sid| stringtable[sid as usize].clone().unwrap()),
-            _version: node.info.version.map(|v| v as u32),
+            _version: node.info.version.and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
     }
@@ -235,7 +235,7 @@ fn decode_dense_nodes(
             )
         };
 
-        // The whole denseinfo, or any of it's columns, can be left out
+        // The whole denseinfo, or any of it's columns, can be left out, and -1 stands for not known
         let changeset_id = (!changesets.is_empty()).then(|| changesets[index] + last_changset);
         last_changset = changeset_id.unwrap_or(0);
         let uid_id = (!uids.is_empty()).then(|| uids[index] + last_uid);
@@ -253,10 +253,12 @@ fn decode_dense_nodes(
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: changeset_id.map(|c| c as u32),
-            _uid: uid_id.map(|u| u as u32),
+            _changeset_id: changeset_id.and_then(|c| u32::try_from(c).ok()),
+            _uid: uid_id.and_then(|u| u32::try_from(u).ok()),
             _user: user_sid.map(|sid| stringtable[sid as usize].clone().unwrap()),
-            _version: (!versions.is_empty()).then(|| versions[index] as u32),
+            _version: (!versions.is_empty())
+                .then(|| versions[index])
+                .and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
     }
@@ -307,7 +309,7 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // info, or any part of it, can be left out
+        // info, or any part of it, can be left out, and -1 stands for not known
 
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
@@ -324,13 +326,13 @@ fn decode_ways(
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: way.info.changeset.map(|c| c as u32),
-            _uid: way.info.uid.map(|u| u as u32),
+            _changeset_id: way.info.changeset.and_then(|c| u32::try_from(c).ok()),
+            _uid: way.info.uid.and_then(|u| u32::try_from(u).ok()),
             _user: way
                 .info
                 .user_sid
                 .map(|sid| stringtable[sid as usize].clone().unwrap()),
-            _version: way.info.version.map(|v| v as u32),
+            _version: way.info.version.and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
     }
@@ -400,7 +402,7 @@ fn decode_relations(
             .filter_map(|((t, &id), r_opt)| r_opt.map(|r| (t, id, r)))
             .collect();
 
-        // info, or any part of it, can be left out
+        // info, or any part of it, can be left out, and -1 stands for not known
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
@@ -415,13 +417,13 @@ fn decode_relations(
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: relation.info.changeset.map(|c| c as u32),
-            _uid: relation.info.uid.map(|u| u as u32),
+            _changeset_id: relation.info.changeset.and_then(|c| u32::try_from(c).ok()),
+            _uid: relation.info.uid.and_then(|u| u32::try_from(u).ok()),
             _user: relation
                 .info
                 .user_sid
                 .map(|sid| stringtable[sid as usize].clone().unwrap()),
-            _version: relation.info.version.map(|v| v as u32),
+            _version: relation.info.version.and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
     }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index b0b688c..bdd7c48 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -135,13 +135,13 @@ fn decode_nodes(
             _tags: tags,
             _lat_lon: Some((Lat(lat), Lon(lon))),
             _deleted: !node.info.visible.unwrap_or(true),
-            _changeset_id: node.info.changeset.map(|c| c as u32),
-            _uid: node.info.uid.map(|u| u as u32),
+            _changeset_id: node.info.changeset.and_then(|c| u32::try_from(c).ok()),
+            _uid: node.info.uid.and_then(|u| u32::try_from(u).ok()),
             _user: node
                 .info
                 .user_sid
                 .map(|sid| stringtable[sid as usize].clone()),
-            _version: node.info.version.map(|v| v as u32),
+            _version: node.info.version.and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
         num_objects_written += 1;
@@ -225,7 +225,7 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        // The whole denseinfo, or any of it's columns, can be left out
+        // The whole denseinfo, or any of it's columns, can be left out, and -1 stands for not known
         let changeset_id = (!changesets.is_empty()).then(|| changesets[index] + last_changset);
         last_changset = changeset_id.unwrap_or(0);
         let uid_id = (!uids.is_empty()).then(|| uids[index] + last_uid);
@@ -243,10 +243,12 @@ fn decode_dense_nodes(
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: changeset_id.map(|c| c as u32),
-            _uid: uid_id.map(|u| u as u32),
+            _changeset_id: changeset_id.and_then(|c| u32::try_from(c).ok()),
+            _uid: uid_id.and_then(|u| u32::try_from(u).ok()),
             _user: user_sid.map(|sid| stringtable[sid as usize].clone()),
-            _version: (!versions.is_empty()).then(|| versions[index] as u32),
+            _version: (!versions.is_empty())
+                .then(|| versions[index])
+                .and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
         num_objects_written += 1
@@ -295,7 +297,7 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // info, or any part of it, can be left out
+        // info, or any part of it, can be left out, and -1 stands for not known
 
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
@@ -312,13 +314,13 @@ fn decode_ways(
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: way.info.changeset.map(|c| c as u32),
-            _uid: way.info.uid.map(|u| u as u32),
+            _changeset_id: way.info.changeset.and_then(|c| u32::try_from(c).ok()),
+            _uid: way.info.uid.and_then(|u| u32::try_from(u).ok()),
             _user: way
                 .info
                 .user_sid
                 .map(|sid| stringtable[sid as usize].clone()),
-            _version: way.info.version.map(|v| v as u32),
+            _version: way.info.version.and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
         num_objects_written += 1;
@@ -387,7 +389,7 @@ fn decode_relations(
             .map(|((t, &id), r)| (t, id, r.clone()))
             .collect();
 
-        // info, or any part of it, can be left out
+        // info, or any part of it, can be left out, and -1 stands for not known
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
@@ -402,13 +404,13 @@ fn decode_relations(
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: relation.info.changeset.map(|c| c as u32),
-            _uid: relation.info.uid.map(|u| u as u32),
+            _changeset_id: relation.info.changeset.and_then(|c| u32::try_from(c).ok()),
+            _uid: relation.info.uid.and_then(|u| u32::try_from(u).ok()),
             _user: relation
                 .info
                 .user_sid
                 .map(|sid| stringtable[sid as usize].clone()),
-            _version: relation.info.version.map(|v| v as u32),
+            _version: relation.info.version.and_then(|v| u32::try_from(v).ok()),
             _timestamp: timestamp,
         }));
         num_objects_written += 1;
-- 
2.43.0


From 25b313bc9b3aee4db61b8022116f926e45cf999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:06 +0000
Subject: [PATCH 38/38] fix: xml, changesets: an attribute of another namespace
 (e.g. xml:id) is not the attribute of that name

---
 src/changesets.rs | 10 +++++-----
 src/xml/mod.rs    |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index dfb8c13..2f54724 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -158,7 +158,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut changeset_builder = ChangesetBuilder::default();
                     for attr in e.attributes() {
                         let attr = attr?;
-                        match attr.key.local_name().as_ref() {
+                        match attr.key.as_ref() {
                             b"id" => {
                                 changeset_builder
                                     .id(attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?);
@@ -227,7 +227,7 @@ impl<R: Read> ChangesetReader<R> {
                                 let mut v = None;
                                 for attr in e.attributes() {
                                     let attr = attr?;
-                                    match attr.key.local_name().as_ref() {
+                                    match attr.key.as_ref() {
                                         b"k" => {
                                             k = Some(
                                                 attr.normalized_value(XmlVersion::Implicit1_0)?
@@ -267,7 +267,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut changeset_builder = ChangesetBuilder::default();
                     for attr in e.attributes() {
                         let attr = attr?;
-                        match attr.key.local_name().as_ref() {
+                        match attr.key.as_ref() {
                             b"id" => {
                                 changeset_builder
                                     .id(attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?);
@@ -419,7 +419,7 @@ impl<R: Read> ChangesetTagReader<R> {
                     );
                     for attr in e.attributes() {
                         let attr = attr?;
-                        if attr.key.local_name().as_ref() == b"id" {
+                        if attr.key.as_ref() == b"id" {
                             self.curr_id =
                                 Some(attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?);
                         }
@@ -433,7 +433,7 @@ impl<R: Read> ChangesetTagReader<R> {
                     let mut v = None;
                     for attr in e.attributes() {
                         let attr = attr?;
-                        match attr.key.local_name().as_ref() {
+                        match attr.key.as_ref() {
                             b"k" => {
                                 k = Some(
                                     attr.normalized_value(XmlVersion::Implicit1_0)?.to_string(),
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 306a9c3..6d2db64 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -177,7 +177,8 @@ pub(crate) fn extract_attrs(x: &mut XmlEvent) -> Option<&mut Vec<OwnedAttribute>
 pub(crate) fn get_xml_attribute(attrs: &mut Vec<OwnedAttribute>, key: &str) -> Option<String> {
     attrs
         .iter()
-        .position(|attr| attr.name.local_name == key)
+        // an attribute with a prefix (e.g. xml:id) is another one
+        .position(|attr| attr.name.prefix.is_none() && attr.name.local_name == key)
         .map(|idx| {
             let attr = attrs.swap_remove(idx);
             let OwnedAttribute { name: _, value } = attr;
-- 
2.43.0

