From 6e4d322216f8187c25e2f175c0206d6fddf5db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 01/34] fix: stringpbf reads uncompressed (raw) blobs instead
 of panicking

---
 src/stringpbf/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..e321632 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -37,8 +37,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     // get lifetime errors with bytes not living long enough.
     buf.clear();
     if let Some(raw) = &blob.raw {
-        buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From 476988533bae28a416b9cdf1326ecb6003360d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 02/34] fix: PBF readers no longer take an I/O error or a cut
 length prefix for the end of the file

---
 src/arcpbf/mod.rs    | 26 +++++++++++++++++++++-----
 src/stringpbf/mod.rs | 26 +++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..db06845 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -3,8 +3,6 @@
 //! Reading PBF files. Writing/creating PBF files is not currently supported or implemented
 use super::ObjId;
 use super::TimestampFormat;
-use byteorder;
-use byteorder::ReadBytesExt;
 use std::io::{Cursor, Read};
 use std::iter::Iterator;
 use std::sync::Arc;
@@ -53,11 +51,29 @@ impl<R: Read> FileReader<R> {
         self.reader
     }
 
+    /// Read the 4 byte big endian size of the next blob header.
+    ///
+    /// Returns `None` only if the source ends exactly here, i.e. between two blobs. Anything else
+    /// which prevents reading the size (I/O error, source ending in the middle) isn't a clean end of
+    /// the file.
+    fn read_header_size(&mut self) -> Option<u32> {
+        let mut bytes = [0; 4];
+        let first = loop {
+            match self.reader.read(&mut bytes) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                res => break res.unwrap(),
+            }
+        };
+        if first == 0 {
+            return None;
+        }
+        self.reader.read_exact(&mut bytes[first..]).unwrap();
+        Some(u32::from_be_bytes(bytes))
+    }
+
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            let size = self.read_header_size()?;
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e321632..68e0d2c 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -4,8 +4,6 @@
 use super::OSMReader;
 use super::ObjId;
 use super::TimestampFormat;
-use byteorder;
-use byteorder::ReadBytesExt;
 use protobuf::Message;
 use smallvec::SmallVec;
 use smol_str::SmolStr;
@@ -57,11 +55,29 @@ impl<R: Read> FileReader<R> {
         self.reader
     }
 
+    /// Read the 4 byte big endian size of the next blob header.
+    ///
+    /// Returns `None` only if the source ends exactly here, i.e. between two blobs. Anything else
+    /// which prevents reading the size (I/O error, source ending in the middle) isn't a clean end of
+    /// the file.
+    fn read_header_size(&mut self) -> Option<u32> {
+        let mut bytes = [0; 4];
+        let first = loop {
+            match self.reader.read(&mut bytes) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                res => break res.unwrap(),
+            }
+        };
+        if first == 0 {
+            return None;
+        }
+        self.reader.read_exact(&mut bytes[first..]).unwrap();
+        Some(u32::from_be_bytes(bytes))
+    }
+
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            let size = self.read_header_size()?;
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
-- 
2.43.0


From 2dd60fc4d573839bb723861a50b7b5b0f0b310cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 03/34] fix: stringpbf accepts dense nodes without any tags
 (empty keys_vals)

---
 src/stringpbf/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 68e0d2c..aa4182d 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -178,7 +178,8 @@ fn decode_dense_nodes(
         internal_lon += internal_lon_offset as i32;
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
+        // When no node of this group has tags, keys_vals is left empty
+        while !keys_vals.is_empty() {
             //assert!(keys_vals_index <= keys_vals.len());
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
-- 
2.43.0


From b116c2c11a9d9e5a8338d6810859db7cb6ade526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 04/34] fix: ways and relations of a PBF file without the
 visible flag are visible

---
 src/arcpbf/mod.rs    | 4 ++--
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index db06845..7bdd71c 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -292,7 +292,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(
@@ -382,7 +382,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index aa4182d..ae0556d 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -279,7 +279,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
@@ -363,7 +363,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-- 
2.43.0


From 3059a693ba1dd8f0a7c6df6cb1884deaec617ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 05/34] fix: stringpbf fails on data blobs it cannot decompress
 instead of skipping them

---
 src/stringpbf/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index ae0556d..8a7e4b9 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -39,6 +39,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
+    } else {
+        panic!("PBF blob without data, or with an unsupported compression");
     }
 }
 
@@ -569,10 +571,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
 
             blob_data.clear();
             blob_raw_data(&mut blob, &mut blob_data, &self.object_filter);
-            if blob_data.is_empty() {
-                // maybe the filter meant nothing was read
-                continue;
-            }
             let block: osmformat::PrimitiveBlock =
                 osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
 
-- 
2.43.0


From 76a0f015f7c728fc0ebd1f3f3b11b88b2a0dd07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 06/34] fix: PBF positions honour every granularity and offset
 (64 bit nanodegree arithmetic)

---
 src/arcpbf/mod.rs            | 28 ++++++++++++----------------
 src/stringpbf/mod.rs         | 28 ++++++++++++----------------
 src/stringpbf/node_id_pos.rs | 28 ++++++++++++----------------
 3 files changed, 36 insertions(+), 48 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 7bdd71c..e810342 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -142,8 +142,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -154,24 +154,20 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets from pbf are in nanodegrees
+        let internal = |raw: i64, offset: i64| {
+            let nanos = offset + raw * i64::from(granularity);
+            i32::try_from(nanos / i64::from(COORD_PRECISION_NANOS))
+                .expect("position was larger than the OSM precision allows")
+        };
+        let internal_lat = internal(raw_lat, lat_offset);
+        let internal_lon = internal(raw_lon, lon_offset);
 
         let tags = if !has_tags {
             None
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 8a7e4b9..7707aac 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -148,8 +148,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -160,24 +160,20 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets from pbf are in nanodegrees
+        let internal = |raw: i64, offset: i64| {
+            let nanos = offset + raw * i64::from(granularity);
+            i32::try_from(nanos / i64::from(COORD_PRECISION_NANOS))
+                .expect("position was larger than the OSM precision allows")
+        };
+        let internal_lat = internal(raw_lat, lat_offset);
+        let internal_lon = internal(raw_lon, lon_offset);
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         // When no node of this group has tags, keys_vals is left empty
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..61cd840 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -93,32 +93,28 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                // granularity & offsets from pbf are in nanodegrees
+                let internal = |raw: i64, offset: i64| {
+                    let nanos = offset + raw * i64::from(*granularity);
+                    i32::try_from(nanos / i64::from(COORD_PRECISION_NANOS))
+                        .expect("position was larger than the OSM precision allows")
+                };
+                let internal_lat = internal(raw_lat, *lat_offset);
+                let internal_lon = internal(raw_lon, *lon_offset);
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
-- 
2.43.0


From ec1139cf4920ae225ce82fb599f1ae4fb1dd0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 07/34] fix: PBF timestamps honour date_granularity and are not
 cut to 32 bits

---
 src/arcpbf/mod.rs    | 18 ++++++++++--------
 src/stringpbf/mod.rs | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index e810342..53f6547 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -210,10 +210,11 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        // date_granularity is in milliseconds
+        let timestamp =
+            TimestampFormat::EpochNumber(timestamp * i64::from(date_granularity) / 1000);
         assert!(uid_id < i32::MAX);
 
         results.push(ArcOSMObj::Node(ArcNode {
@@ -237,7 +238,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -282,7 +283,8 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
+        let timestamp = TimestampFormat::EpochNumber(timestamp);
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -308,7 +310,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -372,7 +374,8 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
+        let timestamp = TimestampFormat::EpochNumber(timestamp);
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -401,7 +404,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 7707aac..39ff437 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -201,10 +201,11 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        // date_granularity is in milliseconds
+        let timestamp =
+            TimestampFormat::EpochNumber(timestamp * i64::from(date_granularity) / 1000);
         assert!(uid_id < i32::MAX);
 
         results.push_back(StringOSMObj::Node(StringNode {
@@ -229,7 +230,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -271,7 +272,8 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
+        let timestamp = TimestampFormat::EpochNumber(timestamp);
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -294,7 +296,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -355,7 +357,8 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
+        let timestamp = TimestampFormat::EpochNumber(timestamp);
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -384,7 +387,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-- 
2.43.0


From 5693cd43263652325d1bc363dab25a2753753e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 08/34] fix: PBF objects without metadata are read with the
 metadata absent instead of panicking

---
 src/arcpbf/mod.rs    | 78 ++++++++++++++++++++------------------------
 src/stringpbf/mod.rs | 69 ++++++++++++++++++++-------------------
 src/utils.rs         | 13 ++++++++
 3 files changed, 85 insertions(+), 75 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 53f6547..c1836aa 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -9,6 +9,7 @@ use std::sync::Arc;
 
 use super::*;
 use crate::COORD_PRECISION_NANOS;
+use crate::utils::next_delta;
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -204,29 +205,24 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
+        let changeset_id = next_delta(changesets, index, &mut last_changset);
+        let uid_id = next_delta(uids, index, &mut last_uid);
+        let user_sid = next_delta(user_sids, index, &mut last_user_sid);
         // date_granularity is in milliseconds
-        let timestamp =
-            TimestampFormat::EpochNumber(timestamp * i64::from(date_granularity) / 1000);
-        assert!(uid_id < i32::MAX);
+        let timestamp = next_delta(timestamps, index, &mut last_timestamp)
+            .map(|t| TimestampFormat::EpochNumber(t * i64::from(date_granularity) / 1000));
+        assert!(uid_id.is_none_or(|uid| uid < i32::MAX));
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|uid| uid as u32),
+            _user: user_sid.map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -276,31 +272,29 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
-
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
-        let timestamp = TimestampFormat::EpochNumber(timestamp);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * i64::from(date_granularity) / 1000));
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|uid| uid as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -369,28 +363,28 @@ fn decode_relations(
             .filter_map(|((t, &id), r_opt)| r_opt.map(|r| (t, id, r)))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
-        let timestamp = TimestampFormat::EpochNumber(timestamp);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * i64::from(date_granularity) / 1000));
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|uid| uid as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 39ff437..9424e1c 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -13,6 +13,7 @@ use std::iter::Iterator;
 
 use super::*;
 use crate::COORD_PRECISION_NANOS;
+use crate::utils::next_delta;
 
 use flate2::read::ZlibDecoder;
 
@@ -195,29 +196,24 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
+        let changeset_id = next_delta(changesets, index, &mut last_changset);
+        let uid_id = next_delta(uids, index, &mut last_uid);
+        let user_sid = next_delta(user_sids, index, &mut last_user_sid);
         // date_granularity is in milliseconds
-        let timestamp =
-            TimestampFormat::EpochNumber(timestamp * i64::from(date_granularity) / 1000);
-        assert!(uid_id < i32::MAX);
+        let timestamp = next_delta(timestamps, index, &mut last_timestamp)
+            .map(|t| TimestampFormat::EpochNumber(t * i64::from(date_granularity) / 1000));
+        assert!(uid_id.is_none_or(|uid| uid < i32::MAX));
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|uid| uid as u32),
+            _user: user_sid.map(|sid| stringtable[sid as usize].clone()),
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -265,26 +261,29 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
-
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
-        let timestamp = TimestampFormat::EpochNumber(timestamp);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * i64::from(date_granularity) / 1000));
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|uid| uid as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -352,24 +351,28 @@ fn decode_relations(
             .map(|((t, &id), r)| (t, id, r.clone()))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.unwrap() * i64::from(date_granularity) / 1000;
-        let timestamp = TimestampFormat::EpochNumber(timestamp);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * i64::from(date_granularity) / 1000));
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|uid| uid as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..b903967 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -13,3 +13,16 @@ pub fn iso_to_epoch(iso: &str) -> u32 {
         .map(|x| x.timestamp() as u32)
         .unwrap_or(0)
 }
+
+/// Next value of an optional, delta coded column of a PBF block. If a file doesn't have this data,
+/// the column is empty.
+pub(crate) fn next_delta<T>(column: &[T], index: usize, last: &mut T) -> Option<T>
+where
+    T: Copy + std::ops::AddAssign,
+{
+    if column.is_empty() {
+        return None;
+    }
+    *last += column[index];
+    Some(*last)
+}
-- 
2.43.0


From 6a9eeec1abc833e0d5e75919b3486d73e4968dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 09/34] fix: stringpbf reads blocks with any number of groups

---
 src/stringpbf/mod.rs | 58 ++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 9424e1c..e39b95e 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -386,7 +386,7 @@ fn decode_primitive_group_to_objs(
     lat_offset: i64,
     lon_offset: i64,
     date_granularity: i32,
-    raw_stringtable: osmformat::StringTable,
+    raw_stringtable: &osmformat::StringTable,
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -410,9 +410,11 @@ fn decode_primitive_group_to_objs(
         );
     } else if primitive_group.dense.is_some() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_dense_nodes(
             primitive_group,
@@ -425,9 +427,11 @@ fn decode_primitive_group_to_objs(
         );
     } else if !primitive_group.ways.is_empty() && object_filter.1 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_ways(
             primitive_group,
@@ -440,9 +444,11 @@ fn decode_primitive_group_to_objs(
         );
     } else if !primitive_group.relations.is_empty() && object_filter.2 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_relations(
             primitive_group,
@@ -474,17 +480,27 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
-    );
+    // A block can have many groups, of different types. If a type would be left out of such a
+    // block, then it would be missing when the caller continues with another type inside this
+    // block.
+    let object_filter = if block.primitivegroup.len() == 1 {
+        object_filter
+    } else {
+        &(true, true, true)
+    };
+
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            &raw_stringtable,
+            object_filter,
+            sink,
+        );
+    }
 
     results
 }
-- 
2.43.0


From 931059884f4f0c2f25a1f66b9e62f99eb9b98489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 10/34] fix: stringpbf typed iteration no longer hides objects
 from later iterations

---
 src/stringpbf/mod.rs | 55 +++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e39b95e..7b9f2bc 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -518,26 +518,47 @@ pub struct PBFReader<R: Read> {
     filereader: FileReader<R>,
     buffer: VecDeque<StringOSMObj>,
     _sorted_assumption: bool,
-    object_filter: ObjectFilter,
 }
 
 impl<R: Read> PBFReader<R> {
     /// Iterate over all the nodes in this source
     pub fn nodes(&mut self) -> impl Iterator<Item = StringNode> + '_ {
-        self.object_filter = (true, false, false);
-        self.objects().filter_map(|o| o.into_node())
+        std::iter::from_fn(move || self.next_filtered(&(true, false, false)))
+            .filter_map(|o| o.into_node())
     }
 
     /// Iterate over all the ways in this source
     pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
-        self.object_filter = (false, true, false);
-        self.objects().filter_map(|o| o.into_way())
+        std::iter::from_fn(move || self.next_filtered(&(false, true, false)))
+            .filter_map(|o| o.into_way())
     }
 
     /// Iterate over all the relations in this source
     pub fn relations(&mut self) -> impl Iterator<Item = StringRelation> + '_ {
-        self.object_filter = (false, false, true);
-        self.objects().filter_map(|o| o.into_relation())
+        std::iter::from_fn(move || self.next_filtered(&(false, false, true)))
+            .filter_map(|o| o.into_relation())
+    }
+
+    /// The next object. Blocks which only have objects of other types are skipped
+    fn next_filtered(&mut self, object_filter: &ObjectFilter) -> Option<StringOSMObj> {
+        let mut blob_data = Vec::new();
+        while self.buffer.is_empty() {
+            // get the next file block and fill up our buffer
+            // FIXME make this parallel
+
+            // get the next block
+            let mut blob = self.filereader.next()?;
+
+            blob_data.clear();
+            blob_raw_data(&mut blob, &mut blob_data, object_filter);
+            let block: osmformat::PrimitiveBlock =
+                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
+
+            // Turn a block into OSM objects
+            decode_block_to_objs(block, object_filter, &mut self.buffer);
+        }
+
+        self.buffer.pop_front()
     }
 }
 
@@ -558,7 +579,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
             filereader: FileReader::new(reader),
             buffer: VecDeque::new(),
             _sorted_assumption: false,
-            object_filter: (true, true, true),
         }
     }
 
@@ -578,23 +598,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-        let mut blob_data = Vec::new();
-        while self.buffer.is_empty() {
-            // get the next file block and fill up our buffer
-            // FIXME make this parallel
-
-            // get the next block
-            let mut blob = self.filereader.next()?;
-
-            blob_data.clear();
-            blob_raw_data(&mut blob, &mut blob_data, &self.object_filter);
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
-
-            // Turn a block into OSM objects
-            decode_block_to_objs(block, &self.object_filter, &mut self.buffer);
-        }
-
-        self.buffer.pop_front()
+        self.next_filtered(&(true, true, true))
     }
 }
-- 
2.43.0


From e46eaf012d1782ae8b5d16d1e236ef6cea2c6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 11/34] fix: PBF readers accept groups without objects and
 blobs without the optional raw_size

---
 src/arcpbf/mod.rs            | 4 ++--
 src/stringpbf/node_id_pos.rs | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index c1836aa..70e374d 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -30,7 +30,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap() as usize);
+        let mut bytes = Vec::with_capacity(blob.raw_size() as usize);
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
@@ -439,7 +439,7 @@ fn decode_primitive_group_to_objs(
             results,
         );
     } else {
-        unreachable!();
+        // nothing we know in this group
     }
 }
 
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 61cd840..d233905 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -119,8 +119,6 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
             }
-        } else {
-            unreachable!();
         }
     }
 
-- 
2.43.0


From bea23d32c9dcf80eb875d5cd829e34724a37dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 12/34] fix: XML and OSC nodes without a position no longer end
 the stream

---
 src/xml/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..583af27 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -262,13 +262,10 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
-
-    let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
-        _errs => None,
-    };
+    // deleted nodes don't have a position
+    let lat = get_xml_attribute(attrs, "lat").and_then(|x| x.parse().ok());
+    let lon = get_xml_attribute(attrs, "lon").and_then(|x| x.parse().ok());
+    let lat_lon = lat.zip(lon);
     let deleted = get_xml_attribute(attrs, "visible")
         .and_then(|val| match val.as_str() {
             "true" => Some(false),
-- 
2.43.0


From a956a11e7947e82208000e1fc27de80d662620a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 13/34] fix: XML and OSC objects without a valid id are not
 taken for the end of the stream

---
 src/osc/mod.rs | 5 ++++-
 src/xml/mod.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..4028c6c 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -86,7 +86,10 @@ impl<R: Read> OSMReader for OSCReader<R> {
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        if elements.is_empty() {
+            return None;
+        }
+        Some(xml_elements_to_osm_obj(&mut elements).expect("OSM object without a valid id"))
     }
 }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 583af27..f1b7ef5 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -128,7 +128,10 @@ impl<R: Read> OSMReader for XMLReader<R> {
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        if elements.is_empty() {
+            return None;
+        }
+        Some(xml_elements_to_osm_obj(&mut elements).expect("OSM object without a valid id"))
     }
 }
 
-- 
2.43.0


From 3f7e584e1088254716112525bfaa6ccce16ea285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 14/34] fix: objects in a delete section of an OSC file are
 reported as deleted

---
 src/osc/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 4028c6c..8c24a76 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -1,7 +1,7 @@
 //! OSC File format
 
 use super::version;
-use super::{Node, OSMObj, OSMObjectType, Relation, Way};
+use super::{Node, OSMObj, OSMObjBase, OSMObjectType, Relation, Way};
 use super::{OSMReader, OSMWriteError, OSMWriter};
 use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
@@ -13,6 +13,8 @@ use xml_rs::reader::{EventReader, Events, XmlEvent};
 
 pub struct OSCReader<R: Read> {
     parser: Events<BufReader<R>>,
+    /// True iff we are currently inside a `<delete>` section
+    in_delete: bool,
 }
 
 #[derive(PartialEq)]
@@ -35,6 +37,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     fn new(reader: R) -> Self {
         OSCReader {
             parser: EventReader::new(BufReader::new(reader)).into_iter(),
+            in_delete: false,
         }
     }
 
@@ -67,12 +70,18 @@ impl<R: Read> OSMReader for OSCReader<R> {
                     "node" | "way" | "relation" => {
                         should_push = true;
                     }
+                    "delete" => {
+                        self.in_delete = true;
+                    }
                     _ => {}
                 },
                 XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                     "node" | "way" | "relation" => {
                         should_break = true;
                     }
+                    "delete" => {
+                        self.in_delete = false;
+                    }
                     _ => {}
                 },
                 _ => {}
@@ -89,7 +98,12 @@ impl<R: Read> OSMReader for OSCReader<R> {
         if elements.is_empty() {
             return None;
         }
-        Some(xml_elements_to_osm_obj(&mut elements).expect("OSM object without a valid id"))
+        let mut obj =
+            xml_elements_to_osm_obj(&mut elements).expect("OSM object without a valid id");
+        if self.in_delete {
+            obj.set_deleted(true);
+        }
+        Some(obj)
     }
 }
 
-- 
2.43.0


From c385088150d2416cbef428785406ac68e5aa78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 15/34] fix: XML and OSC writers accept objects without a
 version

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 8c24a76..7887d8c 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -179,7 +179,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index f1b7ef5..9acf69b 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -448,7 +448,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From f21cd1aa8d9e00b0cd84c8ed90dd66156718b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 16/34] fix: dropping an XML or OSC writer whose sink fails
 doesn't panic or abort

---
 src/osc/mod.rs | 3 ++-
 src/xml/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 7887d8c..5a5e599 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -259,6 +259,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
 impl<W: Write> Drop for OSCWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // There is no way to report an error from here. Call close() to learn about it.
+        let _ = self.close();
     }
 }
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 9acf69b..36690a1 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -528,7 +528,8 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
 impl<W: Write> Drop for XMLWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // There is no way to report an error from here. Call close() to learn about it.
+        let _ = self.close();
     }
 }
 
-- 
2.43.0


From 584136382ea52e298eccd5277062329e24443752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 17/34] fix: a successful close of an XML or OSC writer means
 that the sink was flushed

---
 src/osc/mod.rs | 10 ++++++++--
 src/xml/mod.rs | 12 +++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 5a5e599..478b401 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -21,6 +21,8 @@ pub struct OSCReader<R: Read> {
 enum State {
     Initial,
     WritingObjects,
+    /// The end of the document is written, but maybe not flushed
+    Ended,
     Closed,
 }
 
@@ -147,10 +149,14 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
     fn close(&mut self) -> Result<(), OSMWriteError> {
         self.ensure_header()?;
 
-        if self._state != State::Closed {
+        if self._state == State::WritingObjects {
             write!(self.writer, "\n</modify>")?;
             write!(self.writer, "\n</osmChange>")?;
+            self._state = State::Ended;
+        }
 
+        if self._state == State::Ended {
+            self.writer.flush()?;
             self._state = State::Closed;
         }
 
@@ -161,7 +167,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         match self._state {
             State::Initial => self.ensure_header()?, // This will update self._state
             State::WritingObjects => {}
-            State::Closed => return Err(OSMWriteError::AlreadyClosed),
+            State::Ended | State::Closed => return Err(OSMWriteError::AlreadyClosed),
         }
 
         write!(
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 36690a1..219e9de 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -140,6 +140,8 @@ impl<R: Read> OSMReader for XMLReader<R> {
 enum State {
     Initial,
     WritingObjects,
+    /// The end of the document is written, but maybe not flushed
+    Ended,
     Closed,
 }
 
@@ -407,7 +409,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                 self.headers.insert(key.into(), value.into());
                 Ok(())
             }
-            State::Closed => Err(OSMWriteError::AlreadyClosed),
+            State::Ended | State::Closed => Err(OSMWriteError::AlreadyClosed),
             _ => Err(OSMWriteError::AlreadyStarted),
         }
     }
@@ -419,8 +421,12 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
     fn close(&mut self) -> Result<(), OSMWriteError> {
         self.ensure_header()?;
 
-        write!(self.writer, "\n</osm>")?;
+        if self._state != State::Ended {
+            write!(self.writer, "\n</osm>")?;
+            self._state = State::Ended;
+        }
 
+        self.writer.flush()?;
         self._state = State::Closed;
 
         Ok(())
@@ -430,7 +436,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         match self._state {
             State::Initial => self.ensure_header()?, // This will update self._state
             State::WritingObjects => {}
-            State::Closed => return Err(OSMWriteError::AlreadyClosed),
+            State::Ended | State::Closed => return Err(OSMWriteError::AlreadyClosed),
         }
 
         write!(
-- 
2.43.0


From ba1c36e104d904666ee6083a19b4fb9a3db42336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 18/34] fix: ChangesetReader reports a file which ends inside a
 changeset instead of looping forever

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..a64e68a 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -171,6 +171,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut buf = Vec::new();
                     loop {
                         match self.reader.read_event_into(&mut buf)? {
+                            Event::Eof => bail!("Unexpected end of file inside a changeset"),
                             Event::End(ref e) => {
                                 if e.name().local_name().as_ref() == "changeset".as_bytes() {
                                     break;
-- 
2.43.0


From 0a9ac46d388254a2d756e03d61989512518a8139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 19/34] fix: ChangesetTagReader reports a file which ends
 inside a changeset instead of a clean end

---
 src/changesets.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index a64e68a..8a3d416 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -346,16 +346,18 @@ impl<R: Read> ChangesetTagReader<R> {
         loop {
             match self.reader.read_event_into(&mut buf)? {
                 Event::Eof => {
+                    ensure!(
+                        self.curr_id.is_none(),
+                        "Unexpected end of file inside a changeset"
+                    );
                     return Ok(None);
                 }
                 Event::End(ref e) => {
                     if e.name().local_name().as_ref() == b"changeset" {
-                        ensure!(self.curr_id.is_some(), "Should be an id set");
+                        let id = self.curr_id.take();
+                        ensure!(id.is_some(), "Should be an id set");
 
-                        return Ok(Some((
-                            self.curr_id.unwrap(),
-                            std::mem::take(&mut self.tags),
-                        )));
+                        return Ok(Some((id.unwrap(), std::mem::take(&mut self.tags))));
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
-- 
2.43.0


From da692d15765827c1f71e1d6196fce25c59ec3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 20/34] fix: timestamps after 2038 are not cut to 32 bits when
 formatted

---
 src/lib.rs   | 2 +-
 src/utils.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..2350f72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -255,7 +255,7 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t),
         }
     }
 
diff --git a/src/utils.rs b/src/utils.rs
index b903967..007e285 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,10 +1,10 @@
 //! Misc local utilities
 use chrono::{DateTime, offset::Utc};
 
-pub fn epoch_to_iso(epoch: i32) -> String {
+pub fn epoch_to_iso(epoch: impl Into<i64>) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
     let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+        DateTime::from_timestamp(epoch.into(), 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
-- 
2.43.0


From 78ee98cf3b88c674e514757e3fbaa823bd4aa3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 21/34] fix: line breaks and tabs in written XML attributes
 survive reading

---
 src/osc/mod.rs | 12 ++++++------
 src/xml/mod.rs | 25 ++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 478b401..66c5c16 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_escaped, xml_elements_to_osm_obj};
+use crate::xml::{write_xml_attr_escaped, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -121,7 +121,7 @@ impl<W: Write> OSCWriter<W> {
 
             //for (k, v) in self.headers.iter() {
             //    write!(self.writer, " {}=\"", k)?;
-            //    write_xml_escaped(&mut self.writer, v)?;
+            //    write_xml_attr_escaped(&mut self.writer, v)?;
             //    write!(self.writer, "\"")?;
             //}
             write!(self.writer, ">")?;
@@ -190,7 +190,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -230,7 +230,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -238,9 +238,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 219e9de..a9094e2 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -70,6 +70,21 @@ pub(crate) fn write_xml_escaped(writer: &mut impl Write, s: &str) -> std::io::Re
     Ok(())
 }
 
+/// Like [`write_xml_escaped`], for attribute values. There a parser turns raw line breaks and tabs
+/// into spaces, so they have to be escaped too.
+pub(crate) fn write_xml_attr_escaped(writer: &mut impl Write, s: &str) -> std::io::Result<()> {
+    for part in s.split_inclusive(['\n', '\r', '\t']) {
+        match part.chars().next_back() {
+            Some(c @ ('\n' | '\r' | '\t')) => {
+                write_xml_escaped(writer, &part[..part.len() - 1])?;
+                write!(writer, "&#{};", c as u32)?;
+            }
+            _ => write_xml_escaped(writer, part)?,
+        }
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -382,7 +397,7 @@ impl<W: Write> XMLWriter<W> {
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-                write_xml_escaped(&mut self.writer, v)?;
+                write_xml_attr_escaped(&mut self.writer, v)?;
                 write!(self.writer, "\"")?;
             }
             write!(self.writer, ">")?;
@@ -459,7 +474,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -499,7 +514,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -507,9 +522,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
-- 
2.43.0


From de91689a336921cc256b875d3e3975f3ab5d45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 22/34] fix: XMLWriter headers version and generator replace
 the defaults instead of repeating the attribute

---
 src/xml/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index a9094e2..eaf2f64 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -389,11 +389,14 @@ impl<W: Write> XMLWriter<W> {
     fn ensure_header(&mut self) -> Result<(), OSMWriteError> {
         if self._state == State::Initial {
             writeln!(self.writer, "<?xml version=\"1.0\" encoding=\"utf-8\"?>")?;
-            write!(
-                self.writer,
-                "<osm version=\"0.6\" generator=\"osmio/{}\"",
-                version()
-            )?;
+            write!(self.writer, "<osm")?;
+            // An attribute must not be there twice, headers replace our defaults
+            if !self.headers.contains_key("version") {
+                write!(self.writer, " version=\"0.6\"")?;
+            }
+            if !self.headers.contains_key("generator") {
+                write!(self.writer, " generator=\"osmio/{}\"", version())?;
+            }
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-- 
2.43.0


From d2de09ec8eb45b010bc435c1a76a9703bf9eeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 23/34] fix: XML and OSC writers escape timestamps like all
 other strings

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 66c5c16..d0d620b 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -200,7 +200,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index eaf2f64..9bc8805 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -487,7 +487,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
-- 
2.43.0


From 581fe63d84bb6341496b0542f1dcd4bf9b555107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 24/34] fix: set_header of a format without headers returns
 FormatDoesntSupportHeaders instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2350f72..4e8aa5c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -730,7 +730,7 @@ pub trait OSMWriter<W: Write> {
     fn into_inner(self) -> W;
 
     fn set_header(&mut self, _key_value: (&str, &str)) -> Result<(), OSMWriteError> {
-        todo!("set_header not done yet")
+        Err(OSMWriteError::FormatDoesntSupportHeaders)
     }
 
     /// Create a new OSMWriter, consume all the objects from an OSMObj iterator source, and then
-- 
2.43.0


From 53be34d5c883195e033631a7e75d54667b421fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:25 +0000
Subject: [PATCH 25/34] fix: changeset readers understand character references
 in the open attribute

---
 src/changesets.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 8a3d416..74602c0 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -137,11 +137,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
@@ -240,11 +242,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
-- 
2.43.0


From c9979e5f78aeede764f2ea433d908d40fc8298e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 26/34] fix: changeset tool does not take a database it cannot
 look at for a missing one

---
 src/bin/osmio-changeset-tags-to-sqlite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/osmio-changeset-tags-to-sqlite.rs b/src/bin/osmio-changeset-tags-to-sqlite.rs
index 675bda0..075cc91 100644
--- a/src/bin/osmio-changeset-tags-to-sqlite.rs
+++ b/src/bin/osmio-changeset-tags-to-sqlite.rs
@@ -21,7 +21,7 @@ fn main() -> Result<()> {
     let osc = ChangesetTagReader::from_filename(&changeset_filename)?;
 
     ensure!(
-        !sqlite_filename.exists(),
+        !sqlite_filename.try_exists()?,
         "Sqlite filename {} already exists",
         sqlite_filename.to_str().unwrap()
     );
-- 
2.43.0


From 503c5a4d49dea76c82ebbb449e12eb80c280ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 27/34] fix: PBF readers don't allocate what a damaged size
 field claims before the data is there

---
 src/arcpbf/mod.rs    | 24 ++++++++++++++++--------
 src/stringpbf/mod.rs | 21 ++++++++++++++-------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 70e374d..7552160 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -30,7 +30,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size() as usize);
+        // A damaged file can claim any size. A blob must not be larger than 32 MiB uncompressed.
+        let mut bytes = Vec::with_capacity(blob.raw_size().clamp(0, 32 * 1024 * 1024) as usize);
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
@@ -72,20 +73,27 @@ impl<R: Read> FileReader<R> {
         Some(u32::from_be_bytes(bytes))
     }
 
+    /// Read exactly this many bytes
+    fn read_bytes(&mut self, size: u64) -> Vec<u8> {
+        // A damaged file can claim any size, so don't allocate it before the data is there.
+        let mut bytes = Vec::new();
+        (&mut self.reader)
+            .take(size)
+            .read_to_end(&mut bytes)
+            .unwrap();
+        assert_eq!(bytes.len() as u64, size, "unexpected end of file");
+        bytes
+    }
+
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
             let size = self.read_header_size()?;
-            let mut header_bytes_vec = vec![0; size as usize];
-
-            self.reader
-                .read_exact(header_bytes_vec.as_mut_slice())
-                .unwrap();
+            let header_bytes_vec = self.read_bytes(size.into());
 
             let blob_header: fileformat::BlobHeader =
                 fileformat::BlobHeader::parse_from_bytes(header_bytes_vec.as_slice()).unwrap();
 
-            let mut blob_bytes = vec![0; blob_header.datasize.unwrap() as usize];
-            self.reader.read_exact(blob_bytes.as_mut_slice()).unwrap();
+            let blob_bytes = self.read_bytes(blob_header.datasize.unwrap().try_into().unwrap());
 
             if blob_header.type_.unwrap() != "OSMData" {
                 // keep going to the next blob
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 7b9f2bc..a8865dd 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -78,20 +78,27 @@ impl<R: Read> FileReader<R> {
         Some(u32::from_be_bytes(bytes))
     }
 
+    /// Read exactly this many bytes
+    fn read_bytes(&mut self, size: u64) -> Vec<u8> {
+        // A damaged file can claim any size, so don't allocate it before the data is there.
+        let mut bytes = Vec::new();
+        (&mut self.reader)
+            .take(size)
+            .read_to_end(&mut bytes)
+            .unwrap();
+        assert_eq!(bytes.len() as u64, size, "unexpected end of file");
+        bytes
+    }
+
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
             let size = self.read_header_size()?;
-            let mut header_bytes_vec = vec![0; size as usize];
-
-            self.reader
-                .read_exact(header_bytes_vec.as_mut_slice())
-                .unwrap();
+            let header_bytes_vec = self.read_bytes(size.into());
 
             let blob_header: fileformat::BlobHeader =
                 fileformat::BlobHeader::parse_from_bytes(&header_bytes_vec).unwrap();
 
-            let mut blob_bytes = vec![0; blob_header.datasize() as usize];
-            self.reader.read_exact(blob_bytes.as_mut_slice()).unwrap();
+            let blob_bytes = self.read_bytes(blob_header.datasize().try_into().unwrap());
 
             if blob_header.type_.unwrap() != "OSMData" {
                 // keep going to the next blob
-- 
2.43.0


From 6a277d0b5a95f8395a4e5bda2a64a40eafd57130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 28/34] fix: ChangesetTagReader ends after it reported an end
 of file inside a changeset

---
 src/changesets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 74602c0..1d0b0f4 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -351,7 +351,7 @@ impl<R: Read> ChangesetTagReader<R> {
             match self.reader.read_event_into(&mut buf)? {
                 Event::Eof => {
                     ensure!(
-                        self.curr_id.is_none(),
+                        self.curr_id.take().is_none(),
                         "Unexpected end of file inside a changeset"
                     );
                     return Ok(None);
-- 
2.43.0


From 7b2719456f23325ea99750ae0d30fb7a246c3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 29/34] fix: ChangesetTagReader doesn't keep what it has
 already handled

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 1d0b0f4..e893565 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -348,6 +348,7 @@ impl<R: Read> ChangesetTagReader<R> {
     fn next_tag(&mut self) -> Result<Option<(u64, Vec<(String, String)>)>> {
         let mut buf = Vec::new();
         loop {
+            buf.clear();
             match self.reader.read_event_into(&mut buf)? {
                 Event::Eof => {
                     ensure!(
-- 
2.43.0


From 84eef45a90ded24a55a37782849130423a1892ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:43 +0000
Subject: [PATCH 30/34] fix: PBF readers fail on lists of different lengths
 instead of dropping tags or members

---
 src/arcpbf/mod.rs    | 6 +++++-
 src/stringpbf/mod.rs | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 7552160..3624162 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -258,6 +258,7 @@ fn decode_ways(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags = keys.zip(vals);
         let tags: Vec<_> = tags
             .filter_map(|(k, v)| match (k, v) {
@@ -328,6 +329,7 @@ fn decode_relations(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags = keys.zip(vals);
         let tags: Vec<_> = tags
             .filter_map(|(k, v)| match (k, v) {
@@ -352,7 +354,9 @@ fn decode_relations(
                 member_ids.push(last_id as ObjId);
             }
         }
-        let _num_members = member_ids.len();
+        let num_members = member_ids.len();
+        assert_eq!(num_members, relation.types.len());
+        assert_eq!(num_members, relation.roles_sid.len());
         let member_ids = member_ids.iter();
 
         let member_types = relation
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index a8865dd..77953f6 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -339,7 +339,9 @@ fn decode_relations(
                 member_ids.push(last_id as ObjId);
             }
         }
-        let _num_members = member_ids.len();
+        let num_members = member_ids.len();
+        assert_eq!(num_members, relation.types.len());
+        assert_eq!(num_members, relation.roles_sid.len());
         let member_ids = member_ids.iter();
 
         let member_types = relation
-- 
2.43.0


From 253a95e08af4501da6db73ec19df0f7ec612f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:46 +0000
Subject: [PATCH 31/34] fix: ChangesetTagReader doesn't return what is left of
 a broken changeset

---
 src/changesets.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index e893565..d4dd70c 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -410,6 +410,11 @@ impl<R: Read> Iterator for ChangesetTagReader<R> {
     type Item = Result<(u64, Vec<(String, String)>)>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next_tag().transpose()
+        let res = self.next_tag();
+        if res.is_err() {
+            // don't return what is left of this changeset as if it were all of it
+            self.curr_id = None;
+        }
+        res.transpose()
     }
 }
-- 
2.43.0


From 44248ad01756e2398329b108dc77160031c4685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:29 +0000
Subject: [PATCH 32/34] fix: PBF readers fail on ids, coordinates, metadata and
 tags which don't fit each other

---
 src/arcpbf/mod.rs            | 22 ++++++++++++++++++----
 src/stringpbf/mod.rs         | 22 ++++++++++++++++++----
 src/stringpbf/node_id_pos.rs |  2 ++
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 3624162..5de7912 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -141,8 +141,21 @@ fn decode_dense_nodes(
 
     let num_nodes = ids.len();
     results.reserve(num_nodes);
-    // TODO assert that the id, denseinfo, lat, lon and optionally keys_vals has the same
-    // length
+    assert_eq!(lats.len(), num_nodes);
+    assert_eq!(lons.len(), num_nodes);
+    let versions = &denseinfo.version;
+    let visibles = &denseinfo.visible;
+    // Every column of the metadata is optional, but there's a value for each node if it's there
+    for len in [
+        versions.len(),
+        timestamps.len(),
+        changesets.len(),
+        uids.len(),
+        user_sids.len(),
+        visibles.len(),
+    ] {
+        assert!(len == 0 || len == num_nodes);
+    }
 
     let keys_vals = &dense.keys_vals;
     let has_tags = !keys_vals.is_empty();
@@ -225,14 +238,15 @@ fn decode_dense_nodes(
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
-            _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
+            _deleted: !visibles.get(index).unwrap_or(&true),
             _changeset_id: changeset_id.map(|c| c as u32),
             _uid: uid_id.map(|uid| uid as u32),
             _user: user_sid.map(|sid| stringtable[sid as usize].clone().unwrap()),
-            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _version: versions.get(index).map(|&v| v as u32),
             _timestamp: timestamp,
         }));
     }
+    assert_eq!(keys_vals_index, keys_vals.len());
 
     // convert the keys_vals to
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 77953f6..7a1dbbf 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -147,8 +147,21 @@ fn decode_dense_nodes(
 
     let num_nodes = ids.len();
     results.reserve(num_nodes);
-    // TODO assert that the id, denseinfo, lat, lon and optionally keys_vals has the same
-    // length
+    assert_eq!(lats.len(), num_nodes);
+    assert_eq!(lons.len(), num_nodes);
+    let versions = &denseinfo.version;
+    let visibles = &denseinfo.visible;
+    // Every column of the metadata is optional, but there's a value for each node if it's there
+    for len in [
+        versions.len(),
+        timestamps.len(),
+        changesets.len(),
+        uids.len(),
+        user_sids.len(),
+        visibles.len(),
+    ] {
+        assert!(len == 0 || len == num_nodes);
+    }
 
     let keys_vals = &dense.keys_vals;
 
@@ -215,15 +228,16 @@ fn decode_dense_nodes(
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
-            _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
+            _deleted: !visibles.get(index).unwrap_or(&true),
             _changeset_id: changeset_id.map(|c| c as u32),
             _uid: uid_id.map(|uid| uid as u32),
             _user: user_sid.map(|sid| stringtable[sid as usize].clone()),
-            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _version: versions.get(index).map(|&v| v as u32),
             _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
+    assert_eq!(keys_vals_index, keys_vals.len());
 
     num_objects_written
 }
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index d233905..2372b9c 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -90,6 +90,8 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
             let lons = &dense.lon;
 
             let num_nodes = ids.len();
+            assert_eq!(lats.len(), num_nodes);
+            assert_eq!(lons.len(), num_nodes);
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-- 
2.43.0


From 41a4aa9cb37fd9763d8ab23962974157c3ef016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:29 +0000
Subject: [PATCH 33/34] fix: arcpbf fails on strings which aren't UTF-8 instead
 of leaving out tags and members

---
 src/arcpbf/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 5de7912..3766fb2 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -474,7 +474,10 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock) -> Vec<ArcOSMObj> {
         .stringtable
         .s
         .iter()
-        .map(|chars| std::str::from_utf8(chars).ok().map(Arc::from))
+        .map(|chars| {
+            let string = std::str::from_utf8(chars).expect("Invalid, non-utf8 String");
+            Some(Arc::from(string))
+        })
         .collect();
 
     let granularity = block.granularity();
-- 
2.43.0


From 4e2791ae6c061df4536b47172266571314fdd1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:38 +0000
Subject: [PATCH 34/34] fix: fail on PBF primitive groups which mix object
 types instead of dropping some

---
 src/arcpbf/mod.rs            | 14 ++++++++++++++
 src/stringpbf/mod.rs         | 14 ++++++++++++++
 src/stringpbf/node_id_pos.rs | 14 ++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 3766fb2..fa25696 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -424,6 +424,20 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
+    assert!(
+        [
+            !primitive_group.nodes.is_empty(),
+            primitive_group.dense.is_some(),
+            !primitive_group.ways.is_empty(),
+            !primitive_group.relations.is_empty(),
+        ]
+        .into_iter()
+        .filter(|has_objects| *has_objects)
+        .count()
+            <= 1,
+        "A primitive group has objects of different types"
+    );
+
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 7a1dbbf..da6bb41 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -413,6 +413,20 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
+    assert!(
+        [
+            !primitive_group.nodes.is_empty(),
+            primitive_group.dense.is_some(),
+            !primitive_group.ways.is_empty(),
+            !primitive_group.relations.is_empty(),
+        ]
+        .into_iter()
+        .filter(|has_objects| *has_objects)
+        .count()
+            <= 1,
+        "A primitive group has objects of different types"
+    );
+
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 2372b9c..845ae48 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -79,6 +79,20 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
     let mut num_objects = 0;
 
     for primitive_group in block.primitivegroup.iter() {
+        assert!(
+            [
+                !primitive_group.nodes.is_empty(),
+                primitive_group.dense.is_some(),
+                !primitive_group.ways.is_empty(),
+                !primitive_group.relations.is_empty(),
+            ]
+            .into_iter()
+            .filter(|has_objects| *has_objects)
+            .count()
+                <= 1,
+            "A primitive group has objects of different types"
+        );
+
         if !primitive_group.nodes.is_empty() {
             unimplemented!()
         } else if !primitive_group.ways.is_empty() || !primitive_group.relations.is_empty() {
-- 
2.43.0

