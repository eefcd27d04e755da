From 6a5439aca8d6028b0b1c8a5c28ba6b034d26f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:12 +0000
Subject: [PATCH 01/42] fix: end section type settings at their end marker and
 at any foreign code pair

SectionTypeSettings::read returned an empty item without consuming anything when
it met a code pair it does not know (e.g. XDATA after the settings), so loading
such a file never ended and exhausted memory; and it ignored the end marker, so
several settings were merged into one.
---
 src/section_type_settings.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..9af41e9 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -30,14 +30,19 @@ impl Default for SectionTypeSettings {
 // internal visibility only
 impl SectionTypeSettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionTypeSettings>> {
-        // check the first pair and only continue if it's not 0
+        // check the first pair and only continue if it can be part of one of these
         match iter.next() {
-            Some(Ok(pair @ CodePair { code: 0, .. })) => {
+            Some(Ok(
+                pair @ CodePair {
+                    code: 1 | 2 | 3 | 90..=93 | 330 | 331,
+                    ..
+                },
+            )) => {
                 iter.put_back(Ok(pair));
-                return Ok(None);
             }
             Some(Ok(pair)) => {
                 iter.put_back(Ok(pair));
+                return Ok(None);
             }
             Some(Err(e)) => return Err(e),
             None => return Ok(None),
@@ -65,7 +70,7 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => return Ok(Some(ss)), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From 70f60e75d7342e5568ca909a640eb2cc787ebdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:00 +0000
Subject: [PATCH 02/42] fix: read every data table cell and never trust its
 stored row and column counts

The reader advanced the column before the first one was filled and never
advanced the row, so column 0 and all rows but the first were lost; negative or
huge counts allocated without bound, and saving an empty or ragged table
panicked.
---
 src/object.rs | 79 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 30 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 3d7c896..18e30ad 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -62,6 +62,12 @@ impl MLineStyleElement {
 impl DataTable {
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
+            if self.values.len() <= row {
+                self.values.resize(row + 1, vec![]);
+            }
+            if self.values[row].len() <= col {
+                self.values[row].resize(col + 1, None);
+            }
             self.values[row][col] = Some(val);
         }
     }
@@ -321,9 +327,9 @@ impl Object {
         let mut read_column_count = false;
         let mut read_row_count = false;
         let mut _current_column_code = 0;
+        let mut read_first_column = false;
         let mut current_column = 0;
         let mut current_row = 0;
-        let mut created_table = false;
         let mut current_2d_point = Point::origin();
         let mut current_3d_point = Point::origin();
 
@@ -337,11 +343,11 @@ impl Object {
                     data.field = pair.assert_i16()?;
                 }
                 90 => {
-                    data.column_count = pair.assert_i32()? as usize;
+                    data.column_count = pair.assert_i32()?.max(0) as usize;
                     read_column_count = true;
                 }
                 91 => {
-                    data.row_count = pair.assert_i32()? as usize;
+                    data.row_count = pair.assert_i32()?.max(0) as usize;
                     read_row_count = true;
                 }
 
@@ -351,7 +357,10 @@ impl Object {
                 }
                 92 => {
                     _current_column_code = pair.assert_i32()?;
-                    current_column += 1;
+                    if read_first_column {
+                        current_column += 1;
+                    }
+                    read_first_column = true;
                     current_row = 0;
                 }
 
@@ -362,6 +371,7 @@ impl Object {
                         current_column,
                         DataTableValue::Str(pair.assert_string()?),
                     );
+                    current_row += 1;
                 }
                 40 => {
                     data.set_value(
@@ -369,6 +379,7 @@ impl Object {
                         current_column,
                         DataTableValue::Double(pair.assert_f64()?),
                     );
+                    current_row += 1;
                 }
                 71 => {
                     data.set_value(
@@ -376,6 +387,7 @@ impl Object {
                         current_column,
                         DataTableValue::Boolean(as_bool(pair.assert_i16()?)),
                     );
+                    current_row += 1;
                 }
                 93 => {
                     data.set_value(
@@ -383,6 +395,7 @@ impl Object {
                         current_column,
                         DataTableValue::Integer(pair.assert_i32()?),
                     );
+                    current_row += 1;
                 }
                 10 => {
                     current_2d_point.x = pair.assert_f64()?;
@@ -397,6 +410,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point2D(current_2d_point.clone()),
                     );
+                    current_row += 1;
                     current_2d_point = Point::origin();
                 }
                 11 => {
@@ -412,6 +426,7 @@ impl Object {
                         current_column,
                         DataTableValue::Point3D(current_3d_point.clone()),
                     );
+                    current_row += 1;
                     current_3d_point = Point::origin();
                 }
                 330 | 331 | 340 | 350 | 360 => {
@@ -421,6 +436,7 @@ impl Object {
                             current_column,
                             DataTableValue::Handle(pair.as_handle()?),
                         );
+                        current_row += 1;
                     } else {
                         common.apply_individual_pair(&pair, iter)?;
                     }
@@ -430,16 +446,6 @@ impl Object {
                     common.apply_individual_pair(&pair, iter)?;
                 }
             }
-
-            if read_row_count && read_column_count && !created_table {
-                for row in 0..data.row_count {
-                    data.values.push(vec![]);
-                    for _ in 0..data.column_count {
-                        data.values[row].push(None);
-                    }
-                }
-                created_table = true;
-            }
         }
     }
     fn apply_custom_reader_dictionary(
@@ -1493,8 +1499,20 @@ impl Object {
                 pairs.push(CodePair::new_i32(90, data.column_count as i32));
                 pairs.push(CodePair::new_i32(91, data.row_count as i32));
                 pairs.push(CodePair::new_string(1, &data.name));
-                for col in 0..data.column_count {
-                    let column_code = match data.values[0][col] {
+                let column_count = data
+                    .values
+                    .iter()
+                    .map(|row| row.len())
+                    .max()
+                    .unwrap_or(0)
+                    .min(data.column_count);
+                for col in 0..column_count {
+                    let column_values = data
+                        .values
+                        .iter()
+                        .take(data.row_count)
+                        .filter_map(|row| row.get(col).and_then(|val| val.as_ref()));
+                    let column_code = match column_values.clone().next() {
                         Some(DataTableValue::Boolean(_)) => Some(71),
                         Some(DataTableValue::Integer(_)) => Some(93),
                         Some(DataTableValue::Double(_)) => Some(40),
@@ -1506,35 +1524,36 @@ impl Object {
                     };
                     if let Some(column_code) = column_code {
                         pairs.push(CodePair::new_i32(92, column_code));
-                        pairs.push(CodePair::new_string(2, &data.column_names[col]));
-                        for row in 0..data.row_count {
-                            match data.values[row][col] {
-                                Some(DataTableValue::Boolean(val)) => {
-                                    pairs.push(CodePair::new_i16(71, as_i16(val)));
+                        if let Some(column_name) = data.column_names.get(col) {
+                            pairs.push(CodePair::new_string(2, column_name));
+                        }
+                        for val in column_values {
+                            match val {
+                                DataTableValue::Boolean(val) => {
+                                    pairs.push(CodePair::new_i16(71, as_i16(*val)));
                                 }
-                                Some(DataTableValue::Integer(val)) => {
-                                    pairs.push(CodePair::new_i32(93, val));
+                                DataTableValue::Integer(val) => {
+                                    pairs.push(CodePair::new_i32(93, *val));
                                 }
-                                Some(DataTableValue::Double(val)) => {
-                                    pairs.push(CodePair::new_f64(40, val));
+                                DataTableValue::Double(val) => {
+                                    pairs.push(CodePair::new_f64(40, *val));
                                 }
-                                Some(DataTableValue::Str(ref val)) => {
+                                DataTableValue::Str(val) => {
                                     pairs.push(CodePair::new_string(3, val));
                                 }
-                                Some(DataTableValue::Point2D(ref val)) => {
+                                DataTableValue::Point2D(val) => {
                                     pairs.push(CodePair::new_f64(10, val.x));
                                     pairs.push(CodePair::new_f64(20, val.y));
                                     pairs.push(CodePair::new_f64(30, val.z));
                                 }
-                                Some(DataTableValue::Point3D(ref val)) => {
+                                DataTableValue::Point3D(val) => {
                                     pairs.push(CodePair::new_f64(11, val.x));
                                     pairs.push(CodePair::new_f64(21, val.y));
                                     pairs.push(CodePair::new_f64(31, val.z));
                                 }
-                                Some(DataTableValue::Handle(val)) => {
+                                DataTableValue::Handle(val) => {
                                     pairs.push(CodePair::new_string(331, &val.as_string()));
                                 }
-                                None => (),
                             }
                         }
                     }
-- 
2.43.0


From 38229661cc761f79146ab755af05b2b375ca54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:03 +0000
Subject: [PATCH 03/42] fix: report a failure to write the tail of a saved file

The buffered writer was dropped without being flushed, so an error while writing
the last buffer (a full disk, say) was lost and the save acknowledged.
---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..9c4f8ac 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -212,7 +212,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?;
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -226,7 +228,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?;
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From 8293cf3adf51e191928d1dbbb9561a3ec709dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:02 +0000
Subject: [PATCH 04/42] fix: retry interrupted reads and report failed ones
 while loading a DXB file

A single-byte read did not retry after an interruption, unlike every other read,
and an error while reading a scale factor was replaced by 0.
---
 src/dxb_reader.rs       |  4 ++--
 src/helper_functions.rs | 11 ++---------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..aad363b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..15a2c9c 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -334,15 +334,8 @@ where
 }
 
 pub(crate) fn read_u8<T: Read + ?Sized>(reader: &mut T) -> Option<io::Result<u8>> {
-    let mut buf = [0];
-    let size = match reader.read(&mut buf) {
-        Ok(v) => v,
-        Err(e) => return Some(Err(e)),
-    };
-    match size {
-        0 => None,
-        _ => Some(Ok(buf[0])),
-    }
+    // `bytes()` retries interrupted reads
+    reader.bytes().next()
 }
 
 // safely unwrap an Option<io::Result<T>>
-- 
2.43.0


From 59312e4468a93b5360bf97f43ede00e4acf03bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:16 +0000
Subject: [PATCH 05/42] fix: report an unreadable entity or object instead of
 silently dropping it

---
 src/block.rs       |  2 +-
 src/drawing.rs     |  7 +++----
 src/entity_iter.rs | 26 +++++++++++++++++++++-----
 src/object_iter.rs | 10 ++++------
 4 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..70bd55d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -157,7 +157,7 @@ impl Block {
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-                            let mut iter = EntityIter { iter };
+                            let mut iter = EntityIter::new(iter);
                             iter.read_entities_into_vec(&mut current.entities)?;
                         }
                         _ => {
diff --git a/src/drawing.rs b/src/drawing.rs
index 9c4f8ac..6d736e8 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -29,7 +29,6 @@ use crate::thumbnail;
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
-use itertools::put_back;
 use std::collections::HashSet;
 use std::iter::Iterator;
 use std::path::Path;
@@ -1068,7 +1067,7 @@ impl Drawing {
         Ok(())
     }
     fn read_entities(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let mut iter = EntityIter { iter };
+        let mut iter = EntityIter::new(iter);
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
         for e in entities {
@@ -1081,8 +1080,8 @@ impl Drawing {
         Ok(())
     }
     fn read_objects(&mut self, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        let iter = put_back(ObjectIter { iter });
-        for o in iter {
+        for o in (ObjectIter { iter }) {
+            let o = o?;
             if o.common.handle.is_empty() {
                 self.add_object(o);
             } else {
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..1888330 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,28 +1,44 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfError, DxfResult};
 
 use itertools::{put_back, PutBack};
 
 pub(crate) struct EntityIter<'a> {
     pub iter: &'a mut CodePairPutBack,
+    error: Option<DxfError>,
 }
 
 impl Iterator for EntityIter<'_> {
     type Item = Entity;
 
     fn next(&mut self) -> Option<Entity> {
+        if self.error.is_some() {
+            // never resume in the middle of an unreadable entity
+            return None;
+        }
+
         match Entity::read(self.iter) {
-            Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
+            Ok(entity) => entity,
+            Err(e) => {
+                self.error = Some(e);
+                None
+            }
         }
     }
 }
 
-impl EntityIter<'_> {
+impl<'a> EntityIter<'a> {
+    pub(crate) fn new(iter: &'a mut CodePairPutBack) -> Self {
+        EntityIter { iter, error: None }
+    }
     pub(crate) fn read_entities_into_vec(&mut self, entities: &mut Vec<Entity>) -> DxfResult<()> {
-        collect_entities(self, entities)
+        collect_entities(self, entities)?;
+        match self.error.take() {
+            Some(e) => Err(e),
+            None => Ok(()),
+        }
     }
 }
 
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..ffc1a76 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -1,17 +1,15 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::objects::Object;
+use crate::DxfResult;
 
 pub(crate) struct ObjectIter<'a> {
     pub iter: &'a mut CodePairPutBack,
 }
 
 impl Iterator for ObjectIter<'_> {
-    type Item = Object;
+    type Item = DxfResult<Object>;
 
-    fn next(&mut self) -> Option<Object> {
-        match Object::read(self.iter) {
-            Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
-        }
+    fn next(&mut self) -> Option<DxfResult<Object>> {
+        Object::read(self.iter).transpose()
     }
 }
-- 
2.43.0


From 6d66ceafcd07392056469865b2bdb20ecd0cdbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 06/42] fix: a block that is never closed is an error, not an
 endless loop

---
 src/block.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 70bd55d..bf9d84a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -154,6 +154,16 @@ impl Block {
                             }
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From e98435deafb1453a8e2f764812c8fc396cc92eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:34 +0000
Subject: [PATCH 07/42] fix: a layer color of -32768 no longer overflows

---
 src/color.rs            | 2 +-
 src/helper_functions.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 0fdcfd2..2e43fb2 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -77,7 +77,7 @@ impl Color {
         }
     }
     pub(crate) fn writable_color_value(&self, layer: &Layer) -> i16 {
-        let value = self.raw_value().abs();
+        let value = self.raw_value().saturating_abs();
         if layer.is_layer_on {
             value
         } else {
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 15a2c9c..91ac3c0 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -288,7 +288,7 @@ fn parse_i16_test() {
 
 pub(crate) fn read_color_value(layer: &mut Layer, color: i16) -> Color {
     layer.is_layer_on = color >= 0;
-    Color::from_raw_value(color.abs())
+    Color::from_raw_value(color.saturating_abs())
 }
 
 pub(crate) fn read_line<T>(
-- 
2.43.0


From 83f1545be1690a20d94001690c8e0451a785651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:33 +0000
Subject: [PATCH 08/42] fix: dates no longer panic when out of range or gain a
 second on every save

---
 src/helper_functions.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 91ac3c0..8624f90 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -1,4 +1,3 @@
-use std::cmp::Ordering;
 use std::io;
 use std::io::Read;
 use std::time::Duration as StdDuration;
@@ -30,39 +29,37 @@ pub(crate) fn as_bool(v: i16) -> bool {
     v == 1
 }
 
-fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
-    let days_since_dublin = f - 2_415_020.0; // julian dublin offset, e.g., December 31, 1899 12:00AM
-    let secs_per_day = 24i64 * 60 * 60;
-    let seconds = days_since_dublin * secs_per_day as f64;
-    // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+fn f64_to_adjusted_duration(f: f64) -> Option<ChronoDuration> {
+    // dates are represented as the fractional number of days elapsed since December 31, 1899 but
+    // functions consuming this use 1900/01/01 as a base so we counter the extra day here
+    let days_since_epoch = f - 2_415_021.0;
+    let secs_per_day = 24f64 * 60.0 * 60.0;
+    // a day fraction can't represent every whole second exactly so the nearest one is meant
+    ChronoDuration::try_seconds((days_since_epoch * secs_per_day).round() as i64)
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
 where
     T: TimeZone,
 {
-    // this will never fail; unwrap is ok
-    timezone.with_ymd_and_hms(1900, 1, 1, 0, 0, 0).unwrap()
+    let local = timezone.with_ymd_and_hms(1900, 1, 1, 0, 0, 0);
+    match local.earliest() {
+        Some(epoch) => epoch,
+        // the clocks were moved past this very moment in this time zone, so there is no such local time
+        None => timezone.timestamp_nanos(-2_208_988_800_000_000_000),
+    }
 }
 
 fn as_datetime<T>(timezone: &T, date: f64) -> DateTime<T>
 where
     T: TimeZone,
 {
-    // dates are represented as the fractional number of days elapsed since December 31, 1899.
+    // anything that can't be represented or is earlier than the epoch is taken as the epoch
     let epoch = epoch(timezone);
-    let duration = if date == 0.0 {
-        ChronoDuration::seconds(0)
-    } else {
-        let duration = f64_to_adjusted_duration(date);
-        match ChronoDuration::seconds(0).cmp(&duration) {
-            Ordering::Less => duration,
-            _ => ChronoDuration::seconds(0),
-        }
-    };
-    epoch + duration
+    f64_to_adjusted_duration(date)
+        .filter(|duration| *duration > ChronoDuration::zero())
+        .and_then(|duration| epoch.clone().checked_add_signed(duration))
+        .unwrap_or(epoch)
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
-- 
2.43.0


From 406efae17ed0d8122ec0f0688a95b771f73bf6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:46 +0000
Subject: [PATCH 09/42] fix: DXB files keep the entities of drawings with
 blocks and the base point of blocks

---
 src/dxb_writer.rs | 55 ++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..534ba31 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,42 +23,45 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
-        if writing_block {
+        // force all numbers to be floats
+        self.write_item_type(DxbItemType::NumberMode)?;
+        self.write_w(1)?;
+
+        // only entities or a single block can be written; entities take precedence
+        let block = match drawing.entities().next() {
+            Some(_) => None,
+            None => drawing.blocks().next(),
+        };
+        if let Some(block) = block {
             // write block header
             self.write_item_type(DxbItemType::BlockBase)?;
-            let block = drawing.blocks().next().unwrap();
             self.write_n(block.base_point.x)?;
             self.write_n(block.base_point.y)?;
         }
 
-        // force all numbers to be floats
-        self.write_item_type(DxbItemType::NumberMode)?;
-        self.write_w(1)?;
-
         // write color
         let mut last_color = 0i16;
         self.write_item_type(DxbItemType::NewColor)?;
         self.write_w(last_color)?;
 
-        if writing_block {
-            self.write_entities(&drawing.blocks().next().unwrap().entities)?;
-        } else {
-            let groups = drawing.entities().chunk_by(|&e| e.common.layer.clone());
-            for (layer, entities) in &groups {
-                self.write_item_type(DxbItemType::NewLayer)?;
-                self.write_null_terminated_string(&layer)?;
-                for entity in entities {
-                    match entity.common.color.raw_value() {
-                        c if c == last_color => (), // same color, do nothing
-                        c => {
-                            last_color = c;
-                            self.write_item_type(DxbItemType::NewColor)?;
-                            self.write_w(last_color)?;
-                        }
+        let entities: Vec<&Entity> = match block {
+            Some(block) => block.entities.iter().collect(),
+            None => drawing.entities().collect(),
+        };
+        let groups = entities.into_iter().chunk_by(|&e| e.common.layer.clone());
+        for (layer, entities) in &groups {
+            self.write_item_type(DxbItemType::NewLayer)?;
+            self.write_null_terminated_string(&layer)?;
+            for entity in entities {
+                match entity.common.color.raw_value() {
+                    c if c == last_color => (), // same color, do nothing
+                    c => {
+                        last_color = c;
+                        self.write_item_type(DxbItemType::NewColor)?;
+                        self.write_w(last_color)?;
                     }
-                    self.write_entity(entity)?;
                 }
+                self.write_entity(entity)?;
             }
         }
 
@@ -66,12 +69,6 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0)?;
         Ok(())
     }
-    fn write_entities(&mut self, entities: &[Entity]) -> DxfResult<()> {
-        for entity in entities.iter() {
-            self.write_entity(entity)?;
-        }
-        Ok(())
-    }
     fn write_entity(&mut self, entity: &Entity) -> DxfResult<()> {
         match &entity.specific {
             EntityType::Arc(ref arc) => {
-- 
2.43.0


From ba49691f0f7c246158c40305287ac1452e6652af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:53 +0000
Subject: [PATCH 10/42] fix: attributes, vertices and their SEQEND keep their
 handles and attribute text when loaded

---
 src/drawing.rs     | 48 ++++++++++++++++++++++++++++++----------------
 src/entity_iter.rs | 42 +++++++++++++++++++++++++---------------
 2 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 6d736e8..5032e9e 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -415,24 +415,11 @@ impl Drawing {
 
         // set child handles
         match entity.specific {
-            EntityType::Insert(ref mut ins) => {
-                ins.__seqend_handle = self.next_handle();
-                for a in ins.__attributes_and_handles.iter_mut() {
-                    if a.1 == AUTO_REPLACE_HANDLE {
-                        a.1 = self.next_handle();
-                    }
-                }
-            }
-            EntityType::Polyline(ref mut poly) => {
-                poly.__seqend_handle = self.next_handle();
-                for v in poly.__vertices_and_handles.iter_mut() {
-                    if v.1 == AUTO_REPLACE_HANDLE {
-                        v.1 = self.next_handle();
-                    }
-                }
-            }
+            EntityType::Insert(ref mut ins) => ins.__seqend_handle = Handle::empty(),
+            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = Handle::empty(),
             _ => (),
         }
+        self.set_child_handles(&mut entity);
 
         // ensure invariants
         self.add_entity_no_handle_set(entity)
@@ -659,6 +646,32 @@ impl Drawing {
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
     }
+    /// Gives the parts of an entity that are written as entities of their own, and don't yet have a handle, one.
+    fn set_child_handles(&mut self, entity: &mut Entity) {
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => {
+                if ins.__seqend_handle.is_empty() {
+                    ins.__seqend_handle = self.next_handle();
+                }
+                for a in ins.__attributes_and_handles.iter_mut() {
+                    if a.1 == AUTO_REPLACE_HANDLE {
+                        a.1 = self.next_handle();
+                    }
+                }
+            }
+            EntityType::Polyline(ref mut poly) => {
+                if poly.__seqend_handle.is_empty() {
+                    poly.__seqend_handle = self.next_handle();
+                }
+                for v in poly.__vertices_and_handles.iter_mut() {
+                    if v.1 == AUTO_REPLACE_HANDLE {
+                        v.1 = self.next_handle();
+                    }
+                }
+            }
+            _ => (),
+        }
+    }
     fn remove_item<T>(collection: &mut Vec<T>, index: usize) -> Option<T> {
         if index < collection.len() {
             Some(collection.remove(index))
@@ -1070,10 +1083,11 @@ impl Drawing {
         let mut iter = EntityIter::new(iter);
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
-        for e in entities {
+        for mut e in entities {
             if e.common.handle.is_empty() {
                 self.add_entity(e);
             } else {
+                self.set_child_handles(&mut e);
                 self.add_entity_no_handle_set(e);
             }
         }
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index 1888330..057fd25 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,7 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::{DxfError, DxfResult};
+use crate::{DxfError, DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -46,22 +46,29 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = Entity>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<Handle>
     where
         I: Iterator<Item = Entity>,
     {
         match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            }) => (),
+            }) => Ok(common.handle),
             Some(ent) => {
                 iter.put_back(ent);
+                Ok(Handle::empty())
             }
-            None => (),
+            None => Ok(Handle::empty()),
         }
+    }
 
-        Ok(())
+    fn child_handle(common: &EntityCommon) -> Handle {
+        if common.handle.is_empty() {
+            AUTO_REPLACE_HANDLE
+        } else {
+            common.handle
+        }
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -126,11 +133,16 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
-                            specific: EntityType::Attribute(att),
-                            ..
-                        }) => ins
-                            .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                            ref common,
+                            specific: EntityType::Attribute(mut att),
+                        }) => {
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+
+                            ins.__attributes_and_handles
+                                .push((att, child_handle(common)));
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
@@ -140,7 +152,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -156,11 +168,11 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            ref common,
                             specific: EntityType::Vertex(vertex),
-                            ..
                         }) => poly
                             .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                            .push((vertex, child_handle(common))),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -170,7 +182,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
-- 
2.43.0


From 11804c1b6127d62823c22bf0d91b31de55bae946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:13 +0000
Subject: [PATCH 11/42] fix: loading a block keeps its entities' handles and
 adds no second block record

---
 src/drawing.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 5032e9e..4c9dd46 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -395,6 +395,9 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
+        for ent in &mut block.entities {
+            ent.common.handle = Handle::empty();
+        }
         self.add_block_no_handle_set(block)
     }
     /// Removes the specified `Block` from the `Drawing`.
@@ -842,14 +845,14 @@ impl Drawing {
         }
     }
     fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
+        self.ensure_block_record_is_present(&block.name);
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
+            if ent.common.handle.is_empty() {
+                ent.common.handle = self.next_handle();
+            }
+            self.set_child_handles(ent);
         }
     }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
-- 
2.43.0


From 8157d86f9230e26168acbf8b22a4febec232a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:21 +0000
Subject: [PATCH 12/42] fix: normalizing adds coordinate systems in the same
 order every time

---
 src/drawing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 4c9dd46..85cfa1e 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -29,7 +29,7 @@ use crate::thumbnail;
 use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::iter::Iterator;
 use std::path::Path;
 
@@ -1240,7 +1240,7 @@ impl Drawing {
     }
     fn ensure_ucs(&mut self) {
         // ensure all ucs that should exist do
-        let mut should_exist = HashSet::new();
+        let mut should_exist = BTreeSet::new();
         should_exist.insert(self.header.ucs_definition_name.clone());
         should_exist.insert(self.header.ucs_name.clone());
         should_exist.insert(self.header.ortho_ucs_reference.clone());
-- 
2.43.0


From 0ddbaee8bfa3fc9b1c5dc049994f6bf24e98937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:33 +0000
Subject: [PATCH 13/42] fix: a table style no longer swallows the start of the
 object after it

---
 src/table_cell_style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..56b8a6f 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,11 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    // found the next item; put the pair back and return what we have
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From 3915e719b6b76b052e4308c825b76575d42eea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:33 +0000
Subject: [PATCH 14/42] fix: read the lights of a light list

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 18e30ad..a4c5076 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -656,7 +656,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
-- 
2.43.0


From 10238859b716554be93d8ae8e11dd830b888531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:14 +0000
Subject: [PATCH 15/42] fix: material matrices and multiline style elements
 survive a load

---
 src/object.rs | 70 ++++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index a4c5076..d1b0af5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -127,10 +127,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
@@ -215,38 +214,41 @@ impl Object {
                 );
             }
             ObjectType::Material(ref mut material) => {
-                material.diffuse_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__diffuse_map_transformation_matrix_values,
-                );
-                material.specular_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__specular_map_transformation_matrix_values,
-                );
-                material.reflection_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__reflection_map_transformation_matrix_values,
-                );
-                material.opacity_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__opacity_map_transformation_matrix_values,
-                );
-                material.bump_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__bump_map_transformation_matrix_values,
-                );
-                material.refraction_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__refraction_map_transformation_matrix_values,
-                );
-                material.normal_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__normal_map_transformation_matrix_values,
-                );
-                material.__diffuse_map_transformation_matrix_values.clear();
-                material.__specular_map_transformation_matrix_values.clear();
-                material
-                    .__reflection_map_transformation_matrix_values
-                    .clear();
-                material.__opacity_map_transformation_matrix_values.clear();
-                material.__bump_map_transformation_matrix_values.clear();
-                material
-                    .__refraction_map_transformation_matrix_values
-                    .clear();
-                material.__normal_map_transformation_matrix_values.clear();
+                for (matrix, values) in [
+                    (
+                        &mut material.diffuse_map_transformation_matrix,
+                        &mut material.__diffuse_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.specular_map_transformation_matrix,
+                        &mut material.__specular_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.reflection_map_transformation_matrix,
+                        &mut material.__reflection_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.opacity_map_transformation_matrix,
+                        &mut material.__opacity_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.bump_map_transformation_matrix,
+                        &mut material.__bump_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.refraction_map_transformation_matrix,
+                        &mut material.__refraction_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.normal_map_transformation_matrix,
+                        &mut material.__normal_map_transformation_matrix_values,
+                    ),
+                ] {
+                    if !values.is_empty() {
+                        *matrix = TransformationMatrix::from_vec(values);
+                        values.clear();
+                    }
+                }
             }
             ObjectType::MLineStyle(ref mut mline) => {
                 for (o, (c, l)) in mline.__element_offsets.drain(..).zip(
-- 
2.43.0


From e9a4d3a1ddea36ee2b3bf34f4c9ca5d469874626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:24 +0000
Subject: [PATCH 16/42] fix: read the matrices of a spatial filter in the order
 they are written

---
 src/object.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index d1b0af5..ee0063e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1224,23 +1224,24 @@ impl Object {
                     } else {
                         matrix_list.push(pair.assert_f64()?);
                         if matrix_list.len() == 12 {
+                            // the values are stored column by column, without the last row
                             let matrix = TransformationMatrix::from_vec(&[
                                 matrix_list[0],
-                                matrix_list[1],
-                                matrix_list[2],
-                                0.0,
                                 matrix_list[3],
-                                matrix_list[4],
-                                matrix_list[5],
-                                0.0,
                                 matrix_list[6],
-                                matrix_list[7],
-                                matrix_list[8],
-                                0.0,
                                 matrix_list[9],
+                                matrix_list[1],
+                                matrix_list[4],
+                                matrix_list[7],
                                 matrix_list[10],
+                                matrix_list[2],
+                                matrix_list[5],
+                                matrix_list[8],
                                 matrix_list[11],
                                 0.0,
+                                0.0,
+                                0.0,
+                                1.0,
                             ]);
                             matrix_list.clear();
                             if !set_inverse_matrix {
-- 
2.43.0


From a017b55c5a0da39bd8ee6195f989c7aff20ecfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:51 +0000
Subject: [PATCH 17/42] fix: write an entity's extended data before its
 attributes, vertices and SEQEND

---
 src/entity.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..60eeb3d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1305,10 +1305,12 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
+            // the extended data must come before any trailing entities (attributes, vertices, SEQEND)
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
-- 
2.43.0


From 58bfdd8576ac3eb339facec161b0dfca59abb364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:11 +0000
Subject: [PATCH 18/42] fix: write a block's extended data where it is read

---
 src/block.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index bf9d84a..54a0b2c 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -257,6 +257,10 @@ impl Block {
             pairs.push(CodePair::new_string(4, &self.description));
         }
 
+        for x in &self.x_data {
+            x.add_code_pairs(pairs, version);
+        }
+
         for e in &self.entities {
             e.add_code_pairs(pairs, version, write_handles);
         }
@@ -288,10 +292,6 @@ impl Block {
         if version >= AcadVersion::R13 {
             pairs.push(CodePair::new_str(100, "AcDbBlockEnd"));
         }
-
-        for x in &self.x_data {
-            x.add_code_pairs(pairs, version);
-        }
     }
 }
 
-- 
2.43.0


From d30632d1dec0d4c84794f042a4b299f0e79e0f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:32 +0000
Subject: [PATCH 19/42] fix: an extension record keeps its duplicate record
 handling and its extended data apart from its data

---
 src/object.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index ee0063e..839c6d0 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -15,6 +15,7 @@ use crate::code_pair_put_back::CodePairPutBack;
 use crate::enums::*;
 use crate::helper_functions::*;
 use crate::objects::*;
+use crate::x_data;
 
 //------------------------------------------------------------------------------
 //                                                                  GeoMeshPoint
@@ -1447,11 +1448,17 @@ impl Object {
         iter: &mut CodePairPutBack,
     ) -> DxfResult<bool> {
         let mut reading_data = false;
+        let mut after_subclass_marker = false;
         loop {
             let pair = next_pair!(iter);
-            if reading_data {
+            if pair.code == x_data::XDATA_APPLICATIONNAME {
+                // extended data is never part of the record's own data
+                common.apply_individual_pair(&pair, iter)?;
+            } else if reading_data && !(after_subclass_marker && pair.code == 280) {
+                after_subclass_marker = false;
                 xr.data_pairs.push(pair);
             } else {
+                after_subclass_marker = false;
                 if pair.code == 280 {
                     xr.duplicate_record_handling = enum_from_number!(
                         DictionaryDuplicateRecordHandling,
@@ -1470,6 +1477,7 @@ impl Object {
                 match pair.code {
                     100 => {
                         reading_data = true;
+                        after_subclass_marker = true;
                         continue;
                     } // value should be "AcDbXrecord", some dxf files still need to keep the object read
                     5 | 105 => (), // these codes aren't allowed here
-- 
2.43.0


From db46210813bf512d83f51a72523c0c2ca44e6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:48 +0000
Subject: [PATCH 20/42] fix: a dictionary stays a hard owner after a save

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 839c6d0..2068a1e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1572,7 +1572,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From 82389fa2c15086bc3beb4b0e2b0b7cfb900e883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:14 +0000
Subject: [PATCH 21/42] fix: the dates and hours of a sun study can be read
 back

---
 src/object.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 2068a1e..302eaf8 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -7,8 +7,8 @@ use std::ops::Add;
 use chrono::Duration;
 
 use crate::{
-    CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
-    TableCellStyle, TransformationMatrix,
+    CodePair, CodePairValue, Color, DataTableValue, DxfError, DxfResult, Point,
+    SectionTypeSettings, TableCellStyle, TransformationMatrix,
 };
 
 use crate::code_pair_put_back::CodePairPutBack;
@@ -1635,7 +1635,12 @@ impl Object {
                 pairs.push(CodePair::new_bool(291, ss.select_dates_from_calendar));
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
-                    pairs.push(CodePair::new_i32(90, as_double_local(*item) as i32));
+                    // each date is a julian_day/seconds_past_midnight dual
+                    let julian_day = as_double_local(*item).floor();
+                    let midnight = as_datetime_local(julian_day);
+                    let seconds = item.signed_duration_since(midnight).num_seconds();
+                    pairs.push(CodePair::new_i32(90, julian_day as i32));
+                    pairs.push(CodePair::new_i32(90, seconds as i32));
                 }
                 pairs.push(CodePair::new_bool(292, ss.select_range_of_dates));
                 pairs.push(CodePair::new_i32(93, ss.start_time_seconds_past_midnight));
@@ -1643,7 +1648,7 @@ impl Object {
                 pairs.push(CodePair::new_i32(95, ss.interval_in_seconds));
                 pairs.push(CodePair::new_i16(73, ss.hours.len() as i16));
                 for v in &ss.hours {
-                    pairs.push(CodePair::new_i16(290, *v as i16));
+                    pairs.push(CodePair::new(290, CodePairValue::Boolean(*v as i16), 0));
                 }
                 pairs.push(CodePair::new_string(
                     340,
-- 
2.43.0


From 6de2d73f7fb03556a9cd324ac54e4505b0e50214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 22/42] fix: a material keeps its specular map file name

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 302eaf8..f3967f2 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -707,7 +707,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From eae29ca337a451de93c2f97279ac89cc4a10d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:10 +0000
Subject: [PATCH 23/42] fix: the entities of a block without a handle keep
 their handles when loaded

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 54a0b2c..6900a2d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -148,10 +148,10 @@ impl Block {
                             }
 
                             if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
+                                current.handle = drawing.next_handle();
                             }
+
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair {
-- 
2.43.0


From 7583d752c7e3834b7a3ed2a7631a2d2c8fc09eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:34 +0000
Subject: [PATCH 24/42] fix: read the strings of a binary file as they are
 written

---
 src/code_pair_iter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..b27af25 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -270,16 +270,19 @@ impl<T: Read> BinaryCodePairIter<T> {
         Some(Ok(CodePair::new(code, value, self.offset)))
     }
     fn read_string_binary(&mut self) -> DxfResult<String> {
-        let mut s = String::new();
+        let mut bytes = vec![];
         loop {
             match read_u8(&mut self.reader) {
                 Some(Ok(0)) => break,
-                Some(Ok(c)) => s.push(c as char),
+                Some(Ok(b)) => bytes.push(b),
                 Some(Err(e)) => return Err(DxfError::IoError(e)),
                 None => return Err(DxfError::UnexpectedEndOfInput),
             }
         }
 
+        // strings are written as UTF-8; anything else is taken byte by byte
+        let s = String::from_utf8(bytes)
+            .unwrap_or_else(|e| e.into_bytes().into_iter().map(char::from).collect());
         Ok(s)
     }
 }
-- 
2.43.0


From aa0053e6dcf6a8cae6d8af1b1d9275051a51c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:46 +0000
Subject: [PATCH 25/42] fix: un-escaping text keeps backslashes that start no
 escape sequence

---
 src/code_pair_value.rs | 57 +++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..62c5bd0 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -183,11 +183,12 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     let mut result = String::from("");
 
     for c in val.chars() {
-        let b = c as u32;
-        if b >= 128 {
-            result.push_str(&format!("\\U+{:04X}", b));
-        } else {
+        if c.is_ascii() {
             result.push(c);
+        } else {
+            for unit in c.encode_utf16(&mut [0; 2]) {
+                result.push_str(&format!("\\U+{:04X}", unit));
+            }
         }
     }
 
@@ -195,41 +196,29 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
 }
 
 pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
-    let mut result = String::from("");
-    let mut seq = String::from("");
-    let mut in_escape_sequence = false;
-    let mut sequence_start = 0;
-
-    for (i, c) in val.chars().enumerate() {
-        if !in_escape_sequence {
-            if c == '\\' {
-                in_escape_sequence = true;
-                sequence_start = i;
-                seq.clear();
-                seq.push(c);
-            } else {
-                result.push(c);
+    let mut units = vec![];
+    let mut rest = val;
+    while let Some(c) = rest.chars().next() {
+        let code = rest
+            .strip_prefix("\\U+")
+            .and_then(|r| r.get(..4))
+            .filter(|digits| digits.bytes().all(|b| b.is_ascii_hexdigit()))
+            .and_then(|digits| u16::from_str_radix(digits, 16).ok());
+        match code {
+            Some(code) => {
+                units.push(code);
+                rest = &rest[7..];
             }
-        } else {
-            seq.push(c);
-            if i == sequence_start + 6 {
-                in_escape_sequence = false;
-                if let Some(code_str) = seq.strip_prefix("\\U+") {
-                    let decoded = match u32::from_str_radix(code_str, 16) {
-                        Ok(code) => std::char::from_u32(code).unwrap_or('?'),
-                        Err(_) => '?',
-                    };
-                    result.push(decoded);
-                } else {
-                    result.push_str(&seq);
-                }
-
-                seq.clear();
+            None => {
+                units.extend_from_slice(c.encode_utf16(&mut [0; 2]));
+                rest = &rest[c.len_utf8()..];
             }
         }
     }
 
-    result
+    char::decode_utf16(units)
+        .map(|c| c.unwrap_or('?'))
+        .collect()
 }
 
 /// Formats an `f64` value with up to 12 digits of precision, ensuring at least one trailing digit after the decimal.
-- 
2.43.0


From 3b78502fdff87abce6f369f057407d266c5db9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:56 +0000
Subject: [PATCH 26/42] fix: binary data longer than its length byte no longer
 corrupts a binary file

---
 src/code_pair_writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index 7b3605c..5a7e15f 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -65,6 +65,16 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
         Ok(())
     }
     fn write_binary_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
+        // the length of binary data is a single byte; longer data goes into several pairs
+        if let CodePairValue::Binary(ref buf) = pair.value {
+            if buf.len() > usize::from(u8::MAX) {
+                for chunk in buf.chunks(usize::from(u8::MAX)) {
+                    self.write_binary_code_pair(&CodePair::new_binary(pair.code, chunk.to_vec()))?;
+                }
+                return Ok(());
+            }
+        }
+
         // write code
         if self.version >= AcadVersion::R13 {
             self.writer.write_i16::<LittleEndian>(pair.code as i16)?;
-- 
2.43.0


From 115b4f41c435698b9944a8f5abf5ae870987430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:32 +0000
Subject: [PATCH 27/42] fix: loading a drawing with multilines no longer adds a
 second copy of their style

---
 src/drawing.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 85cfa1e..848d72d 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -131,6 +131,7 @@ impl Drawing {
         drawing.clear();
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
         Drawing::read_sections(&mut drawing, &mut iter)?;
+        drawing.ensure_mline_styles();
         match iter.next() {
             Some(Ok(CodePair {
                 code: 0,
@@ -425,6 +426,7 @@ impl Drawing {
         self.set_child_handles(&mut entity);
 
         // ensure invariants
+        self.ensure_mline_style_is_present_for_entity(&entity);
         self.add_entity_no_handle_set(entity)
     }
     /// Removes the specified `Entity` from the `Drawing`.
@@ -691,7 +693,6 @@ impl Drawing {
         self.__blocks.last().unwrap()
     }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
-        self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
         self.ensure_line_type_is_present(&entity.common.line_type_name);
@@ -784,6 +785,14 @@ impl Drawing {
             }
         }
     }
+    /// The styles a file defines come after the entities that use them.
+    fn ensure_mline_styles(&mut self) {
+        let entities = std::mem::take(&mut self.__entities);
+        for e in &entities {
+            self.ensure_mline_style_is_present_for_entity(e);
+        }
+        self.__entities = entities;
+    }
     fn ensure_dimension_style_is_present_for_entity(&mut self, entity: &Entity) {
         // ensure corresponding dimension style is present
         let dim_style_name = match &entity.specific {
@@ -1088,11 +1097,10 @@ impl Drawing {
         iter.read_entities_into_vec(&mut entities)?;
         for mut e in entities {
             if e.common.handle.is_empty() {
-                self.add_entity(e);
-            } else {
-                self.set_child_handles(&mut e);
-                self.add_entity_no_handle_set(e);
+                e.common.handle = self.next_handle();
             }
+            self.set_child_handles(&mut e);
+            self.add_entity_no_handle_set(e);
         }
         Ok(())
     }
-- 
2.43.0


From 96aab9c9a92431a6471737b668432b8903c71be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:31 +0000
Subject: [PATCH 28/42] fix: local dates are stored as the wall clock time of
 their time zone

---
 src/helper_functions.rs | 48 ++++++++++++++++++++++++-----------------
 src/object.rs           | 16 ++++++--------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 8624f90..52a5356 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -29,6 +29,9 @@ pub(crate) fn as_bool(v: i16) -> bool {
     v == 1
 }
 
+/// 1900/01/01 00:00:00, in seconds since 1970/01/01 00:00:00.
+const EPOCH_TIMESTAMP: i64 = -2_208_988_800;
+
 fn f64_to_adjusted_duration(f: f64) -> Option<ChronoDuration> {
     // dates are represented as the fractional number of days elapsed since December 31, 1899 but
     // functions consuming this use 1900/01/01 as a base so we counter the extra day here
@@ -38,28 +41,34 @@ fn f64_to_adjusted_duration(f: f64) -> Option<ChronoDuration> {
     ChronoDuration::try_seconds((days_since_epoch * secs_per_day).round() as i64)
 }
 
-fn epoch<T>(timezone: &T) -> DateTime<T>
+/// Dates are the wall clock time in their time zone, counted from 1900/01/01 00:00:00.
+fn as_datetime<T>(timezone: &T, date: f64) -> DateTime<T>
 where
     T: TimeZone,
 {
-    let local = timezone.with_ymd_and_hms(1900, 1, 1, 0, 0, 0);
-    match local.earliest() {
-        Some(epoch) => epoch,
-        // the clocks were moved past this very moment in this time zone, so there is no such local time
-        None => timezone.timestamp_nanos(-2_208_988_800_000_000_000),
-    }
+    // anything that can't be represented or is earlier than the epoch is taken as the epoch
+    let epoch = DateTime::UNIX_EPOCH.naive_utc() + ChronoDuration::seconds(EPOCH_TIMESTAMP);
+    f64_to_adjusted_duration(date)
+        .filter(|duration| *duration > ChronoDuration::zero())
+        .and_then(|duration| epoch.checked_add_signed(duration))
+        .and_then(|wall_clock| from_wall_clock(timezone, &wall_clock))
+        .or_else(|| from_wall_clock(timezone, &epoch))
+        .unwrap_or_else(|| timezone.from_utc_datetime(&epoch))
 }
 
-fn as_datetime<T>(timezone: &T, date: f64) -> DateTime<T>
+fn from_wall_clock<T>(timezone: &T, wall_clock: &NaiveDateTime) -> Option<DateTime<T>>
 where
     T: TimeZone,
 {
-    // anything that can't be represented or is earlier than the epoch is taken as the epoch
-    let epoch = epoch(timezone);
-    f64_to_adjusted_duration(date)
-        .filter(|duration| *duration > ChronoDuration::zero())
-        .and_then(|duration| epoch.clone().checked_add_signed(duration))
-        .unwrap_or(epoch)
+    timezone
+        .from_local_datetime(wall_clock)
+        .earliest()
+        .or_else(|| {
+            // the clocks were moved past this very moment, so there is no such time
+            let offset = timezone.offset_from_utc_datetime(wall_clock).fix();
+            let utc = wall_clock.checked_sub_offset(offset)?;
+            Some(timezone.from_utc_datetime(&utc))
+        })
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
@@ -91,21 +100,20 @@ fn datetime_out_of_bounds_test() {
     }
 }
 
-fn as_double<T>(timezone: &T, date: DateTime<T>) -> f64
+fn as_double<T>(date: DateTime<T>) -> f64
 where
     T: TimeZone,
 {
-    let epoch = epoch(timezone);
-    let duration = date.signed_duration_since(epoch);
-    (duration.num_seconds() as f64 / 24.0 / 60.0 / 60.0) + 2_415_021f64
+    let wall_clock = date.timestamp() + i64::from(date.offset().fix().local_minus_utc());
+    ((wall_clock - EPOCH_TIMESTAMP) as f64 / 24.0 / 60.0 / 60.0) + 2_415_021f64
 }
 
 pub(crate) fn as_double_local(date: DateTime<Local>) -> f64 {
-    as_double(&Local, date)
+    as_double(date)
 }
 
 pub(crate) fn as_double_utc(date: DateTime<Utc>) -> f64 {
-    as_double(&Utc, date)
+    as_double(date)
 }
 
 #[test]
diff --git a/src/object.rs b/src/object.rs
index f3967f2..30dc874 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -2,9 +2,6 @@
 
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
-use std::ops::Add;
-
-use chrono::Duration;
 
 use crate::{
     CodePair, CodePairValue, Color, DataTableValue, DxfError, DxfResult, Point,
@@ -1334,10 +1331,9 @@ impl Object {
                         // after the version, 90 pairs come in julian_day/seconds_past_midnight duals
                         match julian_day {
                             Some(jd) => {
-                                let date = as_datetime_local(f64::from(jd));
-                                let date =
-                                    date.add(Duration::seconds(i64::from(pair.assert_i32()?)));
-                                ss.dates.push(date);
+                                let seconds = f64::from(pair.assert_i32()?);
+                                let date = f64::from(jd) + seconds / 24.0 / 60.0 / 60.0;
+                                ss.dates.push(as_datetime_local(date));
                                 julian_day = None;
                             }
                             None => {
@@ -1636,9 +1632,9 @@ impl Object {
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
                     // each date is a julian_day/seconds_past_midnight dual
-                    let julian_day = as_double_local(*item).floor();
-                    let midnight = as_datetime_local(julian_day);
-                    let seconds = item.signed_duration_since(midnight).num_seconds();
+                    let date = as_double_local(*item);
+                    let julian_day = date.floor();
+                    let seconds = ((date - julian_day) * 24.0 * 60.0 * 60.0).round();
                     pairs.push(CodePair::new_i32(90, julian_day as i32));
                     pairs.push(CodePair::new_i32(90, seconds as i32));
                 }
-- 
2.43.0


From 3f1d52db8d9c03a6c69a24281b454e82d54766aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 29/42] fix: text that begins with the bytes of a byte order
 mark is read as it is

---
 src/helper_functions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 52a5356..0c33a58 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -326,9 +326,10 @@ where
         }
     }
 
-    let mut result = match encoding.decode(&bytes) {
-        (result, _, false) => String::from(&*result),
-        (_, _, true) => return Err(DxfError::MalformedString),
+    // a value may well begin with the bytes of a byte order mark
+    let mut result = match encoding.decode_without_bom_handling(&bytes) {
+        (result, false) => String::from(&*result),
+        (_, true) => return Err(DxfError::MalformedString),
     };
 
     if result.ends_with('\r') {
-- 
2.43.0


From c337d4baab989867a02d3a3c4ea0611941ed153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:06 +0000
Subject: [PATCH 30/42] fix: a material keeps its specular gloss factor

---
 src/object.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 30dc874..cbdd5ac 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1685,11 +1685,11 @@ impl Object {
 
         true
     }
-    fn add_post_code_pairs(&self, _pairs: &mut [CodePair], _version: AcadVersion) {
-        // use the following pattern if this method is needed
-        // match self.specific {
-        //     _ => (),
-        // }
+    fn add_post_code_pairs(&self, pairs: &mut Vec<CodePair>, _version: AcadVersion) {
+        if let ObjectType::Material(ref material) = self.specific {
+            // the generated pairs don't include this value
+            pairs.push(CodePair::new_f64(44, material.specular_gloss_factor));
+        }
     }
 }
 
-- 
2.43.0


From 47f21e31188fbb14ef310df5c78c7becd04c4cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:31 +0000
Subject: [PATCH 31/42] fix: a VBA project keeps its data when saved

---
 src/object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index cbdd5ac..c5e1716 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1673,6 +1673,13 @@ impl Object {
                     &ss.__text_style_handle.as_string(),
                 ));
             }
+            ObjectType::VbaProject(ref vba) => {
+                pairs.push(CodePair::new_str(100, "AcDbVbaProject"));
+                pairs.push(CodePair::new_i32(90, vba.data.len() as i32));
+                for chunk in vba.data.chunks(127) {
+                    pairs.push(CodePair::new_binary(310, chunk.to_vec()));
+                }
+            }
             ObjectType::XRecordObject(ref xr) => {
                 pairs.push(CodePair::new_str(100, "AcDbXrecord"));
                 pairs.push(CodePair::new_i16(280, xr.duplicate_record_handling as i16));
-- 
2.43.0


From 285c3ec5386d9ad989476888f18cea1b62dc2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:40 +0000
Subject: [PATCH 32/42] fix: a wipeout keeps its clipping vertices when loaded

---
 src/entity.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 60eeb3d..84074a3 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -669,8 +669,15 @@ impl Entity {
         }
     }
     fn apply_code_pair(&mut self, pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<()> {
-        if !self.specific.try_apply_code_pair(pair)? {
-            self.common.apply_individual_pair(pair, iter)?;
+        match self.specific {
+            EntityType::Wipeout(ref mut wipeout) if pair.code == 24 => {
+                wipeout.__clipping_vertices_y.push(pair.assert_f64()?);
+            }
+            _ => {
+                if !self.specific.try_apply_code_pair(pair)? {
+                    self.common.apply_individual_pair(pair, iter)?;
+                }
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 33e6634a9ef605ae69af97a61e66e4a12f165be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:24 +0000
Subject: [PATCH 33/42] fix: an underlay's clipping points are written where
 they are read

---
 src/entity.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 84074a3..d711436 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -389,6 +389,34 @@ impl EntityCommon {
     }
 }
 
+// the three underlay entities differ only in name
+macro_rules! add_custom_code_pairs_underlay {
+    ($pairs:expr, $underlay:expr) => {{
+        $pairs.push(CodePair::new_str(100, "AcDbUnderlayReference"));
+        $pairs.push(CodePair::new_string(
+            340,
+            &$underlay.__object_handle.as_string(),
+        ));
+        $pairs.push(CodePair::new_f64(10, $underlay.insertion_point.x));
+        $pairs.push(CodePair::new_f64(20, $underlay.insertion_point.y));
+        $pairs.push(CodePair::new_f64(30, $underlay.insertion_point.z));
+        $pairs.push(CodePair::new_f64(41, $underlay.x_scale));
+        $pairs.push(CodePair::new_f64(42, $underlay.y_scale));
+        $pairs.push(CodePair::new_f64(43, $underlay.z_scale));
+        $pairs.push(CodePair::new_f64(50, $underlay.rotation_angle));
+        $pairs.push(CodePair::new_f64(210, $underlay.normal.x));
+        $pairs.push(CodePair::new_f64(220, $underlay.normal.y));
+        $pairs.push(CodePair::new_f64(230, $underlay.normal.z));
+        $pairs.push(CodePair::new_i16(280, $underlay.flags as i16));
+        $pairs.push(CodePair::new_i16(281, $underlay.contrast));
+        $pairs.push(CodePair::new_i16(282, $underlay.fade));
+        for point in &$underlay.points {
+            $pairs.push(CodePair::new_f64(11, point.x));
+            $pairs.push(CodePair::new_f64(21, point.y));
+        }
+    }};
+}
+
 //------------------------------------------------------------------------------
 //                                                                        Entity
 //------------------------------------------------------------------------------
@@ -1343,6 +1371,15 @@ impl Entity {
             EntityType::Vertex(ref v) => {
                 Entity::add_custom_code_pairs_vertex(pairs, v, version);
             }
+            EntityType::DgnUnderlay(ref underlay) => {
+                add_custom_code_pairs_underlay!(pairs, underlay);
+            }
+            EntityType::DwfUnderlay(ref underlay) => {
+                add_custom_code_pairs_underlay!(pairs, underlay);
+            }
+            EntityType::PdfUnderlay(ref underlay) => {
+                add_custom_code_pairs_underlay!(pairs, underlay);
+            }
             _ => return false, // no custom code pairs
         }
 
-- 
2.43.0


From 23ef3fd026139266f7e0b161d926bf83bad14985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:32 +0000
Subject: [PATCH 34/42] fix: a multiline's vertices and directions are written
 where they are read

---
 src/entity.rs | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index d711436..36fa490 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1371,6 +1371,9 @@ impl Entity {
             EntityType::Vertex(ref v) => {
                 Entity::add_custom_code_pairs_vertex(pairs, v, version);
             }
+            EntityType::MLine(ref mline) => {
+                Entity::add_custom_code_pairs_mline(pairs, mline);
+            }
             EntityType::DgnUnderlay(ref underlay) => {
                 add_custom_code_pairs_underlay!(pairs, underlay);
             }
@@ -1385,6 +1388,50 @@ impl Entity {
 
         true
     }
+    fn add_custom_code_pairs_mline(pairs: &mut Vec<CodePair>, mline: &MLine) {
+        pairs.push(CodePair::new_str(100, "AcDbMline"));
+        pairs.push(CodePair::new_string(2, &mline.style_name));
+        pairs.push(CodePair::new_string(340, &mline.__style_handle.as_string()));
+        pairs.push(CodePair::new_f64(40, mline.scale_factor));
+        pairs.push(CodePair::new_i16(70, mline.justification as i16));
+        pairs.push(CodePair::new_i16(71, mline.flags as i16));
+        pairs.push(CodePair::new_i16(72, mline.vertices.len() as i16));
+        pairs.push(CodePair::new_i16(73, mline.style_element_count as i16));
+        pairs.push(CodePair::new_f64(10, mline.start_point.x));
+        pairs.push(CodePair::new_f64(20, mline.start_point.y));
+        pairs.push(CodePair::new_f64(30, mline.start_point.z));
+        if mline.normal != Vector::z_axis() {
+            pairs.push(CodePair::new_f64(210, mline.normal.x));
+            pairs.push(CodePair::new_f64(220, mline.normal.y));
+            pairs.push(CodePair::new_f64(230, mline.normal.z));
+        }
+        for vertex in &mline.vertices {
+            pairs.push(CodePair::new_f64(11, vertex.x));
+            pairs.push(CodePair::new_f64(21, vertex.y));
+            pairs.push(CodePair::new_f64(31, vertex.z));
+        }
+        for direction in &mline.segment_directions {
+            pairs.push(CodePair::new_f64(12, direction.x));
+            pairs.push(CodePair::new_f64(22, direction.y));
+            pairs.push(CodePair::new_f64(32, direction.z));
+        }
+        for direction in &mline.miter_directions {
+            pairs.push(CodePair::new_f64(13, direction.x));
+            pairs.push(CodePair::new_f64(23, direction.y));
+            pairs.push(CodePair::new_f64(33, direction.z));
+        }
+        pairs.push(CodePair::new_i16(74, mline.parameters.len() as i16));
+        for parameter in &mline.parameters {
+            pairs.push(CodePair::new_f64(41, *parameter));
+        }
+        pairs.push(CodePair::new_i16(
+            75,
+            mline.area_fill_parameters.len() as i16,
+        ));
+        for parameter in &mline.area_fill_parameters {
+            pairs.push(CodePair::new_f64(42, *parameter));
+        }
+    }
     fn add_custom_code_pairs_rotateddimension(
         pairs: &mut Vec<CodePair>,
         dim: &RotatedDimension,
-- 
2.43.0


From 7d4b85f72fd61a0bcb197116f00ab87b17f55f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 35/42] fix: a layer name with a wide or null character no
 longer corrupts a DXB file

---
 src/dxb_writer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index 534ba31..7f2254a 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -203,7 +203,14 @@ impl<T: Write> DxbWriter<T> {
         Ok(())
     }
     fn write_null_terminated_string(&mut self, value: &str) -> DxfResult<()> {
-        self.write_string(value)?;
+        for c in value.chars() {
+            // a character that doesn't fit in a byte must not look like the end of the string
+            let b = match u8::try_from(c as u32) {
+                Ok(0) | Err(_) => b'?',
+                Ok(b) => b,
+            };
+            self.writer.write_u8(b)?;
+        }
         self.writer.write_u8(0)?;
         Ok(())
     }
-- 
2.43.0


From ccdf3a942022741a9f42ccbe76894ad88244ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:36 +0000
Subject: [PATCH 36/42] fix: deeply nested extended data is an error, not a
 stack overflow

---
 src/extension_data.rs | 14 ++++++++++++--
 src/x_data.rs         | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index 1363059..31e3e7f 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -2,6 +2,7 @@ use crate::{CodePair, DxfError, DxfResult};
 
 use crate::code_pair_put_back::CodePairPutBack;
 
+const MAX_EXTENSION_GROUP_DEPTH: usize = 256; // every level of nesting takes up stack space
 pub(crate) const EXTENSION_DATA_GROUP: i32 = 102;
 
 /// Represents an application name and a collection of extension group data in the form of `CodePair`s.
@@ -26,7 +27,15 @@ impl ExtensionGroup {
         iter: &mut CodePairPutBack,
         offset: usize,
     ) -> DxfResult<ExtensionGroup> {
-        if !application_name.starts_with('{') {
+        ExtensionGroup::read_nested_group(application_name, iter, offset, 0)
+    }
+    fn read_nested_group(
+        application_name: String,
+        iter: &mut CodePairPutBack,
+        offset: usize,
+        depth: usize,
+    ) -> DxfResult<ExtensionGroup> {
+        if !application_name.starts_with('{') || depth >= MAX_EXTENSION_GROUP_DEPTH {
             return Err(DxfError::ParseError(offset));
         }
         let mut application_name = application_name;
@@ -46,7 +55,8 @@ impl ExtensionGroup {
                     break;
                 } else if name.starts_with('{') {
                     // nested group
-                    let sub_group = ExtensionGroup::read_group(name, iter, pair.offset)?;
+                    let sub_group =
+                        ExtensionGroup::read_nested_group(name, iter, pair.offset, depth + 1)?;
                     items.push(ExtensionGroupItem::Group(sub_group));
                 } else {
                     return Err(DxfError::UnexpectedCodePair(
diff --git a/src/x_data.rs b/src/x_data.rs
index 501d128..49859b5 100644
--- a/src/x_data.rs
+++ b/src/x_data.rs
@@ -5,6 +5,7 @@ use crate::enums::AcadVersion;
 use crate::helper_functions::*;
 
 pub(crate) const XDATA_APPLICATIONNAME: i32 = 1001;
+const MAX_CONTROLGROUP_DEPTH: usize = 256; // every level of nesting takes up stack space
 const XDATA_STRING: i32 = 1000;
 const XDATA_CONTROLGROUP: i32 = 1002;
 const XDATA_LAYER: i32 = 1003;
@@ -72,7 +73,7 @@ impl XData {
                 iter.put_back(Ok(pair));
                 break;
             }
-            xdata.items.push(XDataItem::read_item(&pair, iter)?);
+            xdata.items.push(XDataItem::read_item(&pair, iter, 0)?);
         }
         Ok(xdata)
     }
@@ -91,10 +92,18 @@ impl XData {
 }
 
 impl XDataItem {
-    fn read_item(pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<XDataItem> {
+    fn read_item(
+        pair: &CodePair,
+        iter: &mut CodePairPutBack,
+        depth: usize,
+    ) -> DxfResult<XDataItem> {
         match pair.code {
             XDATA_STRING => Ok(XDataItem::Str(pair.assert_string()?)),
             XDATA_CONTROLGROUP => {
+                if depth >= MAX_CONTROLGROUP_DEPTH {
+                    return Err(DxfError::ParseError(pair.offset));
+                }
+
                 let mut items = vec![];
                 loop {
                     let pair = match iter.next() {
@@ -115,7 +124,7 @@ impl XDataItem {
                         break;
                     }
 
-                    items.push(XDataItem::read_item(&pair, iter)?);
+                    items.push(XDataItem::read_item(&pair, iter, depth + 1)?);
                 }
                 Ok(XDataItem::ControlGroup(items))
             }
-- 
2.43.0


From 2d6e79780b3ee2320b0c7e7be0ca523870c275f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 37/42] fix: a file whose next handle is the highest possible
 one can be loaded

---
 src/handle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handle.rs b/src/handle.rs
index d9bf612..b9b7ba2 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -7,7 +7,8 @@ impl Handle {
         Handle(0)
     }
     pub fn next_handle_value(self) -> Self {
-        Handle(self.0 + 1)
+        // the highest value is followed by the lowest; 0 is no handle
+        Handle(self.0.checked_add(1).unwrap_or(1))
     }
     pub fn is_empty(self) -> bool {
         self.0 == 0
-- 
2.43.0


From ab5773fda4719aca4fb9545385ffea77de189b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:46 +0000
Subject: [PATCH 38/42] fix: a thumbnail with a huge header size no longer
 overflows

---
 src/thumbnail.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index a623061..521098c 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -75,21 +75,21 @@ fn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> DxfResult
 
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
-    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
+    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as u32 as u64;
 
     // calculate the palette size
-    let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET + 4 {
+    let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET as u64 + 4 {
         let palette_color_count = read_u32(
             data,
             FILE_HEADER_LENGTH + BITMAP_HEADER_PALETTE_COUNT_OFFSET,
-        )? as usize;
+        )? as u64;
         palette_color_count * 4 // always 4 bytes: BGRA
     } else {
         return Ok(false);
     };
 
     // set the image data offset
-    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + palette_size;
+    let image_data_offset = FILE_HEADER_LENGTH as u64 + dib_header_size + palette_size;
     set_i32(data, IMAGE_DATA_OFFSET_OFFSET, image_data_offset as i32)?;
 
     Ok(true)
-- 
2.43.0


From 3351bcff83c34913288ced886abd494bff096c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:25 +0000
Subject: [PATCH 39/42] fix: a proxy entity keeps its entity data, and an
 object's owner is not taken for one of its members

---
 src/entity.rs | 72 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/object.rs | 16 +++++++++++-
 2 files changed, 87 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 36fa490..36c3fad 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -834,9 +834,81 @@ impl Entity {
             EntityType::MText(ref mut mtext) => {
                 Entity::apply_custom_reader_mtext(&mut self.common, mtext, iter)
             }
+            EntityType::ProxyEntity(ref mut proxy) => {
+                Entity::apply_custom_reader_proxyentity(&mut self.common, proxy, iter)
+            }
             _ => Ok(false), // no custom reader
         }
     }
+    fn apply_custom_reader_proxyentity(
+        common: &mut EntityCommon,
+        proxy: &mut ProxyEntity,
+        iter: &mut CodePairPutBack,
+    ) -> DxfResult<bool> {
+        let mut owner_is_next = false; // between the handle and the first subclass marker
+        let mut reading_common = false; // between `AcDbEntity` and the subclass marker after it
+        let mut reading_entity_data = false;
+        loop {
+            let pair = next_pair!(iter);
+            match pair.code {
+                5 => {
+                    owner_is_next = true;
+                    common.apply_individual_pair(&pair, iter)?;
+                }
+                100 => {
+                    owner_is_next = false;
+                    reading_common = pair.assert_string()? == "AcDbEntity";
+                }
+                _ if reading_common => {
+                    common.apply_individual_pair(&pair, iter)?;
+                }
+                70 => {
+                    proxy.original_data_format_is_dxf = as_bool(pair.assert_i16()?);
+                }
+                90 => {
+                    proxy.proxy_entity_class_id = pair.assert_i32()?;
+                }
+                91 => {
+                    proxy.application_entity_class_id = pair.assert_i32()?;
+                }
+                92 => {
+                    proxy.graphics_data_size = pair.assert_i32()?;
+                    reading_entity_data = false;
+                }
+                93 => {
+                    proxy.entity_data_size = pair.assert_i32()?;
+                    reading_entity_data = true;
+                }
+                94 => {
+                    proxy.terminator = pair.assert_i32()?;
+                }
+                95 => {
+                    proxy.__object_drawing_format = pair.assert_i32()? as u32;
+                }
+                310 if reading_entity_data => {
+                    proxy.entity_data_string.push(pair.assert_binary()?);
+                }
+                310 => {
+                    proxy.graphics_data_string.push(pair.assert_binary()?);
+                }
+                330 if !owner_is_next => {
+                    proxy.object_id_1.push(pair.assert_string()?);
+                }
+                340 => {
+                    proxy.object_id_2.push(pair.assert_string()?);
+                }
+                350 => {
+                    proxy.object_id_3.push(pair.assert_string()?);
+                }
+                360 => {
+                    proxy.object_id_4.push(pair.assert_string()?);
+                }
+                _ => {
+                    common.apply_individual_pair(&pair, iter)?;
+                }
+            }
+        }
+    }
     fn apply_custom_reader_attribute(
         common: &mut EntityCommon,
         att: &mut Attribute,
diff --git a/src/object.rs b/src/object.rs
index c5e1716..0464fb7 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -113,6 +113,7 @@ impl Object {
                             let mut obj = Object::new(e);
                             if !obj.apply_custom_reader(iter)? {
                                 // no custom reader, use the auto-generated one
+                                let mut owner_is_next = false;
                                 loop {
                                     match iter.next() {
                                         Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -120,7 +121,20 @@ impl Object {
                                             iter.put_back(Ok(pair));
                                             break;
                                         }
-                                        Some(Ok(pair)) => obj.apply_code_pair(&pair, iter)?,
+                                        Some(Ok(pair @ CodePair { code: 330, .. }))
+                                            if owner_is_next =>
+                                        {
+                                            // between the handle and the subclass marker is the owner
+                                            obj.common.apply_individual_pair(&pair, iter)?;
+                                        }
+                                        Some(Ok(pair)) => {
+                                            match pair.code {
+                                                5 => owner_is_next = true,
+                                                100 => owner_is_next = false,
+                                                _ => (),
+                                            }
+                                            obj.apply_code_pair(&pair, iter)?
+                                        }
                                         Some(Err(e)) => return Err(e),
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
-- 
2.43.0


From 0242cd1eb52d7757d855ec7bef7f616709aaa169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:29 +0000
Subject: [PATCH 40/42] fix: objects that use a group code for several fields
 keep them all

---
 src/object.rs | 189 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 189 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 0464fb7..975af34 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1,5 +1,7 @@
 // other implementation is in `generated/objects.rs`
 
+use std::collections::HashMap;
+
 use enum_primitive::FromPrimitive;
 use itertools::Itertools;
 
@@ -81,6 +83,174 @@ impl ObjectCommon {
     }
 }
 
+//------------------------------------------------------------------------------
+//                                                                    ObjectType
+//------------------------------------------------------------------------------
+impl ObjectType {
+    /// Applies the pair if it's one of several with the same code; `index` is how many came before it.
+    fn try_apply_repeated_code_pair(&mut self, pair: &CodePair, index: usize) -> DxfResult<bool> {
+        match self {
+            ObjectType::MentalRayRenderSettings(mr) => match (pair.code, index) {
+                (90, 0) => mr.class_version_1 = pair.assert_i32()?,
+                (1, 0) => mr.preset_name = pair.assert_string()?,
+                (290, 0) => mr.render_materials = pair.assert_bool()?,
+                (90, 1) => mr.texture_sampling_quality = pair.assert_i32()?,
+                (290, 1) => mr.render_back_faces = pair.assert_bool()?,
+                (290, 2) => mr.render_shadows = pair.assert_bool()?,
+                (1, 1) => mr.preview_file_name = pair.assert_string()?,
+                (90, 2) => mr.class_version_2 = pair.assert_i32()?,
+                (90, 3) => mr.minimum_sampling_rate = pair.assert_i32()?,
+                (90, 4) => mr.maximum_sampling_rate = pair.assert_i32()?,
+                (70, 0) => {
+                    mr.sampling_filter_type =
+                        enum_from_number!(SamplingFilterType, Box, from_i16, pair.assert_i16()?)
+                }
+                (40, 0) => mr.filter_width = pair.assert_f64()?,
+                (40, 1) => mr.filter_height = pair.assert_f64()?,
+                (40, 2) => mr.sampling_contrast_color_red = pair.assert_f64()?,
+                (40, 3) => mr.sampling_contrast_color_green = pair.assert_f64()?,
+                (40, 4) => mr.sampling_contrast_color_blue = pair.assert_f64()?,
+                (40, 5) => mr.sampling_contrast_color_alpha = pair.assert_f64()?,
+                (70, 1) => {
+                    mr.shadow_mode =
+                        enum_from_number!(RenderShadowMode, Simple, from_i16, pair.assert_i16()?)
+                }
+                (290, 3) => mr.map_shadows = pair.assert_bool()?,
+                (290, 4) => mr.ray_tracing = pair.assert_bool()?,
+                (90, 5) => mr.ray_tracing_depth_reflections = pair.assert_i32()?,
+                (90, 6) => mr.ray_tracing_depth_refractions = pair.assert_i32()?,
+                (90, 7) => mr.ray_tracing_depth_maximum = pair.assert_i32()?,
+                (290, 5) => mr.use_global_illumination = pair.assert_bool()?,
+                (90, 8) => mr.sample_count = pair.assert_i32()?,
+                (290, 6) => mr.use_global_illumination_radius = pair.assert_bool()?,
+                (40, 6) => mr.global_illumination_radius = pair.assert_f64()?,
+                (90, 9) => mr.photons_per_light = pair.assert_i32()?,
+                (90, 10) => mr.global_illumination_depth_reflections = pair.assert_i32()?,
+                (90, 11) => mr.global_illumination_depth_refractions = pair.assert_i32()?,
+                (90, 12) => mr.global_illumination_depth_maximum = pair.assert_i32()?,
+                (290, 7) => mr.use_final_gather = pair.assert_bool()?,
+                (90, 13) => mr.final_gather_ray_count = pair.assert_i32()?,
+                (290, 8) => mr.use_final_gather_minimum_radius = pair.assert_bool()?,
+                (290, 9) => mr.use_final_gather_maximum_radius = pair.assert_bool()?,
+                (290, 10) => mr.use_final_gather_pixels = pair.assert_bool()?,
+                (40, 7) => mr.final_gather_sample_radius_minimum = pair.assert_f64()?,
+                (40, 8) => mr.final_gather_sample_radius_maximum = pair.assert_f64()?,
+                (40, 9) => mr.luminance_scale = pair.assert_f64()?,
+                (70, 2) => {
+                    mr.diagnostic_mode =
+                        enum_from_number!(RenderDiagnosticMode, Off, from_i16, pair.assert_i16()?)
+                }
+                (70, 3) => {
+                    mr.diagnostic_grid_mode = enum_from_number!(
+                        RenderDiagnosticGridMode,
+                        Object,
+                        from_i16,
+                        pair.assert_i16()?
+                    )
+                }
+                (40, 10) => mr.grid_size = pair.assert_f64()?,
+                (70, 4) => {
+                    mr.diagnostic_photon_mode = enum_from_number!(
+                        DiagnosticPhotonMode,
+                        Density,
+                        from_i16,
+                        pair.assert_i16()?
+                    )
+                }
+                (70, 5) => {
+                    mr.diagnostic_bsp_mode =
+                        enum_from_number!(DiagnosticBSPMode, Depth, from_i16, pair.assert_i16()?)
+                }
+                (290, 11) => mr.export_mi_statistics = pair.assert_bool()?,
+                (1, 2) => mr.mi_statistics_file_name = pair.assert_string()?,
+                (90, 14) => mr.tile_size = pair.assert_i32()?,
+                (70, 6) => {
+                    mr.tile_order =
+                        enum_from_number!(TileOrder, Hilbert, from_i16, pair.assert_i16()?)
+                }
+                (90, 15) => mr.memory_limit = pair.assert_i32()?,
+                _ => return Ok(false),
+            },
+            ObjectType::NavisWorksModelDefinition(nw) => match (pair.code, index) {
+                (290, 0) => nw.is_model_loaded_on_drawing_open = pair.assert_bool()?,
+                (290, 1) => nw.is_host_geometry_drawn = pair.assert_bool()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RapidRTRenderEnvironment(env) => match (pair.code, index) {
+                (290, 0) => env.is_enabled = pair.assert_bool()?,
+                (290, 1) => env.is_map_as_background = pair.assert_bool()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RapidRenderSettings(rs) => match (pair.code, index) {
+                (90, 0) => rs.subclass_version = pair.assert_i32()?,
+                (1, 0) => rs.render_preset_name = pair.assert_string()?,
+                (290, 0) => rs.are_materials_enabled = pair.assert_bool()?,
+                (290, 1) => rs.is_texture_sampling_enabled = pair.assert_bool()?,
+                (290, 2) => rs.are_back_faces_enabled = pair.assert_bool()?,
+                (290, 3) => rs.are_shadows_enabled = pair.assert_bool()?,
+                (1, 1) => rs.preview_image_file_name = pair.assert_string()?,
+                (1, 2) => rs.render_preset_description = pair.assert_string()?,
+                (90, 1) => rs.display_index = pair.assert_i32()?,
+                (290, 4) => rs.is_predefined_render_present = pair.assert_bool()?,
+                (90, 2) => rs.subclass_version = pair.assert_i32()?,
+                (70, 0) => {
+                    rs.render_duration =
+                        enum_from_number!(RenderDuration, ByTime, from_i16, pair.assert_i16()?)
+                }
+                (90, 3) => rs.render_level_count_imit = pair.assert_i32()?,
+                (90, 4) => rs.render_time_limit = pair.assert_i32()?,
+                (70, 1) => {
+                    rs.render_accuracy =
+                        enum_from_number!(RenderAccuracy, Low, from_i16, pair.assert_i16()?)
+                }
+                (70, 2) => {
+                    rs.sampling_filter =
+                        enum_from_number!(SamplingFilterType, Box, from_i16, pair.assert_i16()?)
+                }
+                (40, 0) => rs.filter_width = pair.assert_f64()?,
+                (40, 1) => rs.filter_height = pair.assert_f64()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RenderEnvironment(env) => match (pair.code, index) {
+                (290, 0) => env.is_fog_enabled = pair.assert_bool()?,
+                (290, 1) => env.is_background_fog_enabled = pair.assert_bool()?,
+                (280, 0) => env.fog_color_red = i32::from(pair.assert_i16()?),
+                (280, 1) => env.fog_color_green = i32::from(pair.assert_i16()?),
+                (280, 2) => env.fog_color_blue = i32::from(pair.assert_i16()?),
+                (40, 0) => env.near_fog_density_percent = pair.assert_f64()?,
+                (40, 1) => env.far_fog_density_percent = pair.assert_f64()?,
+                (40, 2) => env.near_clipping_plane_distance_percent = pair.assert_f64()?,
+                (40, 3) => env.far_clipping_plane_distance_percent = pair.assert_f64()?,
+                (290, 2) => env.use_environment_image = pair.assert_bool()?,
+                _ => return Ok(false),
+            },
+            ObjectType::RenderGlobal(rg) => match (pair.code, index) {
+                (90, 0) => rg.class_version = pair.assert_i32()?,
+                (90, 1) => {
+                    rg.render_procedure =
+                        enum_from_number!(RenderProcedure, View, from_i32, pair.assert_i32()?)
+                }
+                (90, 2) => {
+                    rg.render_destination = enum_from_number!(
+                        RenderDestination,
+                        RenderWindow,
+                        from_i32,
+                        pair.assert_i32()?
+                    )
+                }
+                (290, 0) => rg.save_to_file = pair.assert_bool()?,
+                (90, 3) => rg.image_width = pair.assert_i32()?,
+                (90, 4) => rg.image_height = pair.assert_i32()?,
+                (290, 1) => rg.use_predefined_presets_first = pair.assert_bool()?,
+                (290, 2) => rg.use_high_info_level = pair.assert_bool()?,
+                _ => return Ok(false),
+            },
+            _ => return Ok(false),
+        }
+        Ok(true)
+    }
+}
+
 //------------------------------------------------------------------------------
 //                                                                        Object
 //------------------------------------------------------------------------------
@@ -312,6 +482,12 @@ impl Object {
             ObjectType::MLineStyle(ref mut mline) => {
                 Object::apply_custom_reader_mlinestyle(&mut self.common, mline, iter)
             }
+            ObjectType::MentalRayRenderSettings(_)
+            | ObjectType::NavisWorksModelDefinition(_)
+            | ObjectType::RapidRTRenderEnvironment(_)
+            | ObjectType::RapidRenderSettings(_)
+            | ObjectType::RenderEnvironment(_)
+            | ObjectType::RenderGlobal(_) => self.apply_repeated_codes_reader(iter),
             ObjectType::SectionSettings(ref mut ss) => {
                 Object::apply_custom_reader_sectionsettings(&mut self.common, ss, iter)
             }
@@ -333,6 +509,19 @@ impl Object {
             _ => Ok(false), // no custom reader
         }
     }
+    /// Reads an object that has several fields with the same code; they're told apart by their order.
+    fn apply_repeated_codes_reader(&mut self, iter: &mut CodePairPutBack) -> DxfResult<bool> {
+        let mut counts: HashMap<i32, usize> = HashMap::new();
+        loop {
+            let pair = next_pair!(iter);
+            let count = counts.entry(pair.code).or_insert(0);
+            let index = *count;
+            *count += 1;
+            if !self.specific.try_apply_repeated_code_pair(&pair, index)? {
+                self.apply_code_pair(&pair, iter)?;
+            }
+        }
+    }
     fn apply_custom_reader_datatable(
         common: &mut ObjectCommon,
         data: &mut DataTable,
-- 
2.43.0


From 24c8754b5a28ce2726d143d53328915d68002265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:14 +0000
Subject: [PATCH 41/42] fix: a DXB file's scale factor no longer scales
 colours, flags and angles, and integer bulges are read in their unit

---
 src/dxb_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index aad363b..ff5ea6b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -288,7 +288,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_a(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * self.scale_factor / 1_000_000.0
+            f64::from(read_i32(&mut self.reader)?) / 1_000_000.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -313,7 +313,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_u(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * 65536.0 * self.scale_factor
+            f64::from(read_i32(&mut self.reader)?) / 65536.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -321,7 +321,7 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_w(&mut self) -> DxfResult<i32> {
-        let value = (f64::from(read_i16(&mut self.reader)?) * self.scale_factor) as i32;
+        let value = i32::from(read_i16(&mut self.reader)?);
         self.advance_offset(2);
         Ok(value)
     }
-- 
2.43.0


From f0339cddfa7768be34445d8280f2544d56df00ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 42/42] fix: an empty line in place of a group code no longer
 ends a text file early

---
 src/code_pair_iter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index b27af25..dde1190 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -96,7 +96,14 @@ impl<T: Read> TextCodePairIter<T> {
         let code_line = code_line.trim();
         if code_line.is_empty() {
             // might be an empty file only containing a newline
-            return None;
+            loop {
+                match read_u8(&mut self.reader) {
+                    Some(Ok(b)) if b.is_ascii_whitespace() => (),
+                    Some(Ok(_)) => return Some(Err(DxfError::ParseError(self.offset))),
+                    Some(Err(e)) => return Some(Err(DxfError::IoError(e))),
+                    None => return None,
+                }
+            }
         }
 
         let code_offset = self.offset;
-- 
2.43.0

