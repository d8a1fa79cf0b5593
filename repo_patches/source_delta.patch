From 2e666c89a63c0ec04bae2362e323ad5150447606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 01/18] fix: read_s15f16 overflowed on the most negative fixed
 point number

---
 src/io/io_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 5d242bd..4fa334b 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -487,7 +487,7 @@ pub trait IOHandler: Debug {
 
 fn s15f16_to_f64(value: S15F16) -> f64 {
     let sign = if value < 0 { -1.0 } else { 1.0 };
-    let value = value.abs();
+    let value = value.unsigned_abs();
 
     let whole = ((value >> 16) & 0xFFFF) as u16;
     let frac_part = (value & 0xFFFF) as u16;
-- 
2.43.0


From f77fd37dfda288365a9eb72a3544ef0b96d98f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 02/18] fix: FileNull::seek overflowed on negative offsets

---
 src/io/file_null.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 2119ab2..b752e2d 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -1,4 +1,4 @@
-use std::io::{Result, SeekFrom};
+use std::io::{Error, ErrorKind, Result, SeekFrom};
 
 use super::IOHandler;
 
@@ -66,10 +66,10 @@ impl IOHandler for FileNull {
                 self.pointer = value as usize;
             },
             SeekFrom::End(value) => {
-                self.pointer = self.used_space + value as usize;
+                self.pointer = offset_position(self.used_space, value)?;
             },
             SeekFrom::Current(value) => {
-                self.pointer += value as usize;
+                self.pointer = offset_position(self.pointer, value)?;
             }
         }
         Ok(())
@@ -94,3 +94,14 @@ impl IOHandler for FileNull {
         Ok(())
     }
 }
+
+/// Moves `base` by a signed `offset`. Positions before the start (or past [`usize::MAX`]) are invalid.
+fn offset_position(base: usize, offset: i64) -> Result<usize> {
+    let position = if offset < 0 {
+        base.checked_sub(offset.unsigned_abs() as usize)
+    } else {
+        base.checked_add(offset as usize)
+    };
+
+    position.ok_or_else(|| Error::from(ErrorKind::InvalidInput))
+}
-- 
2.43.0


From ac39a3c5dbdcf2d76003375bd325b03be8f84984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 03/18] fix: FileNull::read left the caller's buffer unchanged
 instead of reading zeros

---
 src/io/file_null.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index b752e2d..303d753 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -56,6 +56,7 @@ impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
         let len = buf.len();
         self.pointer += len;
+        buf.fill(0);
 
         Ok(())
     }
-- 
2.43.0


From f2e572293e6567000e6107b10b0a372b66a9bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 04/18] fix: FileNull::read and write overflowed near the end
 of the address range

---
 src/io/file_null.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 303d753..b5933ef 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -55,7 +55,7 @@ impl Default for FileNull {
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
         let len = buf.len();
-        self.pointer += len;
+        self.pointer = advance_position(self.pointer, len)?;
         buf.fill(0);
 
         Ok(())
@@ -86,7 +86,7 @@ impl IOHandler for FileNull {
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
         let len = buf.len();
-        self.pointer += len;
+        self.pointer = advance_position(self.pointer, len)?;
 
         if self.pointer > self.used_space {
             self.used_space = self.pointer
@@ -106,3 +106,9 @@ fn offset_position(base: usize, offset: i64) -> Result<usize> {
 
     position.ok_or_else(|| Error::from(ErrorKind::InvalidInput))
 }
+
+/// Moves `base` forward by `len` bytes. Positions past [`usize::MAX`] are invalid.
+fn advance_position(base: usize, len: usize) -> Result<usize> {
+    base.checked_add(len)
+        .ok_or_else(|| Error::from(ErrorKind::InvalidInput))
+}
-- 
2.43.0


From 2c17455902fe1b927c93bc004d2d149415719ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 05/18] fix: a tag entry whose offset + size overflows panicked
 instead of being skipped

---
 src/types/profile.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 2d96af6..08baaf3 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -179,8 +179,9 @@ impl Profile {
             let tag = TagEntryConverter::from_bytes(buf);
 
             // Perform some sanity check. Offset + size should fall inside file.
-            if tag.offset + tag.size > header_size as u32 || tag.offset + tag.size < tag.offset {
-                continue;
+            match tag.offset.checked_add(tag.size) {
+                Some(end) if end as usize <= header_size => (),
+                _ => continue,
             }
 
             self.tag_names[self.tag_count] = tag.sig;
-- 
2.43.0


From bd3a7b4d5c0609c628c26e15cd662b85c7b3a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 06/18] fix: tags sharing data were linked to themselves
 instead of to the earlier tag

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 08baaf3..bcc1778 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -193,7 +193,7 @@ impl Profile {
                 if self.tag_offsets[j] == tag.offset as usize
                     && self.tag_sizes[j] == tag.size as usize
                 {
-                    self.tag_linked[j] = Some(self.tag_names[j]);
+                    self.tag_linked[self.tag_count] = Some(self.tag_names[j]);
                 }
             }
 
-- 
2.43.0


From 1b5b34635028c43712ee7e8a923b4c54b917970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 07/18] fix: get_tag_signature indexed past the tag table when
 it is full

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index bcc1778..9c1d024 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -48,7 +48,7 @@ impl Profile {
         self.tag_count
     }
     pub fn get_tag_signature(&self, n: usize) -> Signature {
-        if n > self.tag_count {
+        if n >= self.tag_count {
             Signature::default()
         } else {
             self.tag_names[n]
-- 
2.43.0


From d269f2484e311058ae317458562063a5b67098e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 08/18] fix: opening a profile with an invalid creation date
 panicked instead of failing

---
 src/types/date_time_number.rs | 8 ++++++++
 src/types/profile.rs          | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 380f6b9..5d2eff8 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -12,6 +12,14 @@ pub struct DateTimeNumber {
     pub seconds: u16,
 }
 
+impl DateTimeNumber {
+    /// Converts to a [`chrono::NaiveDateTime`], or [`None`] if this is not a valid date and time.
+    pub(crate) fn to_naive_date_time(&self) -> Option<chrono::NaiveDateTime> {
+        chrono::NaiveDate::from_ymd_opt(self.year as i32, self.month as u32, self.day as u32)?
+            .and_hms_opt(self.hours as u32, self.minutes as u32, self.seconds as u32)
+    }
+}
+
 impl From<DateTimeNumber> for chrono::NaiveDateTime {
     fn from(d: DateTimeNumber) -> Self {
         chrono::NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32).and_hms(
diff --git a/src/types/profile.rs b/src/types/profile.rs
index 9c1d024..6ac9b75 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -160,7 +160,13 @@ impl Profile {
         };
 
         // Get creation date/time
-        self.created = header.date.into();
+        self.created = match header.date.to_naive_date_time() {
+            Some(created) => created,
+            None => {
+                context.signal_error(ErrorCode::Range, "Invalid creation date".to_string());
+                return err;
+            }
+        };
 
         // The profile ID are 32 raw bytes
         self.profile_id = header.profile_id;
-- 
2.43.0


From 639c06e6adaa28e8592cb503a4f058fb9d3610f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 09/18] fix: opening a profile for writing tried to read a
 header and always failed

---
 src/types/profile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 6ac9b75..ba4d299 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -102,6 +102,9 @@ impl Profile {
         } else {
             profile.io = Some(Box::new(File::create(filename)?));
             profile.is_write = true;
+
+            // There is nothing to read yet
+            return Ok(profile);
         };
 
         profile.read_header_thr(context)?;
-- 
2.43.0


From 0deba2315ab64768df0406ccc191c8155619bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 10/18] fix: init_plugin never checked the last plugin of the
 chain

---
 src/state/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/context.rs b/src/state/context.rs
index 416147d..2679866 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -66,8 +66,8 @@ impl Context {
             Err(text)
         };
 
-        let mut plugin = plugin;
-        while plugin.next.is_some() {
+        let mut next = Some(plugin);
+        while let Some(plugin) = next {
             if plugin.magic != signatures::plugin_type::MAGIC {
                 return signal_error(
                     self,
@@ -105,7 +105,7 @@ impl Context {
                 }
             };
 
-            plugin = plugin.next.as_ref().unwrap();
+            next = plugin.next.as_deref();
         }
 
         Ok(())
-- 
2.43.0


From 64e4db59d46cc01eb82d752b2dba776dfbad197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 11/18] fix: parametric curve type 1 passed negative inputs
 through for any small gamma

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 025cf98..9d8e82f 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -97,7 +97,7 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let gamma = params[0];
 
             if r < 0.0 {
-                if gamma.abs() - 1.0 < MATRIX_DET_TOLERANCE {
+                if (gamma - 1.0).abs() < MATRIX_DET_TOLERANCE {
                     r
                 } else {
                     0.0
-- 
2.43.0


From a43de52cf9870a987ad99985bc0a40c269b73421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 12/18] fix: reversed parametric curve type 7 rejected negative
 parameters

---
 src/plugins/para_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 9d8e82f..7ba6136 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -386,7 +386,9 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let c = params[3];
             let d = params[4];
 
-            if gamma < MATRIX_DET_TOLERANCE || a < MATRIX_DET_TOLERANCE || b < MATRIX_DET_TOLERANCE
+            if gamma.abs() < MATRIX_DET_TOLERANCE
+                || a.abs() < MATRIX_DET_TOLERANCE
+                || b.abs() < MATRIX_DET_TOLERANCE
             {
                 0.0
             } else {
-- 
2.43.0


From 71525b894c8ae5e12a824c3b336f6dfc0d4148d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 13/18] fix: the reversed sigmoidal curve used log10 and did
 not invert the sigmoid

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 7ba6136..b301492 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -453,7 +453,7 @@ fn sigmoid_base(k: f64, t: f64) -> f64 {
 }
 #[inline]
 fn inverted_sigmoid_base(k: f64, t: f64) -> f64 {
-    -((1.0 / (t + 0.5)) - 1.0).log10() / k
+    -((1.0 / (t + 0.5)) - 1.0).ln() / k
 }
 #[inline]
 fn sigmoid_factory(k: f64, t: f64) -> f64 {
-- 
2.43.0


From 115f7333f2acfba24a423573ad7b559c76bec733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 14/18] fix: is_in_set overflowed on the most negative curve
 type

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index b301492..4d02833 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -82,7 +82,7 @@ impl Default for ParametricCurves {
 impl ParametricCurves {
     pub fn is_in_set(&self, r#type: i32) -> Option<usize> {
         for i in 0..self.curves.len() {
-            if r#type.abs() == self.curves[i].function_curve_id {
+            if r#type.checked_abs() == Some(self.curves[i].function_curve_id) {
                 return Some(i);
             }
         }
-- 
2.43.0


From 98555ed3cd23b9ff7b863ae5f25b3ac0fbf2e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 15/18] fix: the year 0 was converted to the year 1 in a
 DateTimeNumber

---
 src/types/date_time_number.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 5d2eff8..5275ae0 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -33,9 +33,8 @@ impl From<chrono::NaiveDateTime> for DateTimeNumber {
     fn from(d: chrono::NaiveDateTime) -> Self {
         let time = d.time();
 
-        let (_, year) = d.year_ce();
         Self {
-            year: year as u16,
+            year: d.year() as u16,
             month: d.month() as u16,
             day: d.day() as u16,
             hours: time.hour() as u16,
-- 
2.43.0


From 6a7fd81375bb64ea8a06866348e017247c5b85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 16/18] Verification hooks: access to private state for proofs
 (cfg lcms2_verif, off by default)

---
 src/state.rs               |   2 +
 src/state/context_verif.rs |  41 +++++++++++++++
 src/types.rs               |   5 ++
 src/types/codec_verif.rs   |  25 ++++++++++
 src/types/profile.rs       |   4 ++
 src/types/profile_verif.rs | 100 +++++++++++++++++++++++++++++++++++++
 6 files changed, 177 insertions(+)
 create mode 100644 src/state/context_verif.rs
 create mode 100644 src/types/codec_verif.rs
 create mode 100644 src/types/profile_verif.rs

diff --git a/src/state.rs b/src/state.rs
index 0b2a2b9..d765e26 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -1,5 +1,7 @@
 pub mod chunks;
 mod context;
+#[cfg(lcms2_verif = "context")]
+pub mod context_verif;
 
 pub use chunks::error_handler::ErrorCode;
 pub use context::Context;
diff --git a/src/state/context_verif.rs b/src/state/context_verif.rs
new file mode 100644
index 0000000..057ecad
--- /dev/null
+++ b/src/state/context_verif.rs
@@ -0,0 +1,41 @@
+//! Verification hook: access to the chunks of a [`Context`]. Only built with `--cfg lcms2_verif="context"`.
+
+use super::chunks::{
+    adaption_state::AdaptionStateChunk, alarm_codes::AlarmCodesChunk,
+    error_handler::LogErrorHandlerFunction, formatters::FormattersPluginChunk,
+    intents::IntentsPluginChunk, interpolation::InterpolationPluginChunk,
+    optimizations::OptimizationPluginChunk, parametric_curves::CurvesPluginChunk,
+    tag::TagPluginChunk, tag_type::TagTypePluginChunk, transform::TransformPluginChunk,
+};
+use super::Context;
+
+pub fn set_error_handler(c: &mut Context, handler: LogErrorHandlerFunction) {
+    c.error_handler.handler = handler;
+}
+
+pub fn error_handler(c: &Context) -> LogErrorHandlerFunction {
+    c.error_handler.handler
+}
+
+macro_rules! chunks {
+    ($($name:ident: $t:ty),* $(,)?) => {
+        $(pub fn $name(c: &mut Context) -> &mut $t {
+            &mut c.$name
+        })*
+    };
+}
+
+chunks! {
+    user_data: Option<Box<[u8]>>,
+    alarm_codes: AlarmCodesChunk,
+    adaption_state: AdaptionStateChunk,
+    interpolation_plugin: InterpolationPluginChunk,
+    curves_plugin: CurvesPluginChunk,
+    formatters_plugin: FormattersPluginChunk,
+    tag_types_plugin: TagTypePluginChunk,
+    tags_plugin: TagPluginChunk,
+    intents_plugin: IntentsPluginChunk,
+    mpe_types_plugin: TagTypePluginChunk,
+    optimization_plugin: OptimizationPluginChunk,
+    transform_plugin: TransformPluginChunk,
+}
diff --git a/src/types.rs b/src/types.rs
index adc2bf3..996c614 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -13,6 +13,11 @@ mod signature;
 mod tag_entry;
 mod tone_curve;
 
+#[cfg(lcms2_verif = "codec")]
+pub mod codec_verif;
+#[cfg(lcms2_verif = "profile")]
+pub use profile::profile_verif;
+
 pub use cie_xyz::CIEXYZ;
 pub use curve_segment::CurveSegment;
 pub use date_time_number::DateTimeNumber;
diff --git a/src/types/codec_verif.rs b/src/types/codec_verif.rs
new file mode 100644
index 0000000..3c3e69a
--- /dev/null
+++ b/src/types/codec_verif.rs
@@ -0,0 +1,25 @@
+//! Verification hook: access to the crate-private converters. Only built with `--cfg lcms2_verif="codec"`.
+
+use super::{
+    icc_header::ICCHeaderConverter, tag_entry::TagEntryConverter, DateTimeNumber, ICCHeader, TagEntry,
+};
+
+pub fn header_from_bytes(bytes: [u8; 128]) -> ICCHeader {
+    ICCHeaderConverter::from_bytes(bytes)
+}
+
+pub fn header_to_bytes(header: ICCHeader) -> [u8; 128] {
+    ICCHeaderConverter::to_bytes(header)
+}
+
+pub fn tag_entry_from_bytes(bytes: [u8; 12]) -> TagEntry {
+    TagEntryConverter::from_bytes(bytes)
+}
+
+pub fn tag_entry_to_bytes(entry: TagEntry) -> [u8; 12] {
+    TagEntryConverter::to_bytes(entry)
+}
+
+pub fn date_time(date: &DateTimeNumber) -> Option<chrono::NaiveDateTime> {
+    date.to_naive_date_time()
+}
diff --git a/src/types/profile.rs b/src/types/profile.rs
index ba4d299..685fc3d 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -16,6 +16,10 @@ use super::{
     MAX_TABLE_TAG,
 };
 
+#[cfg(lcms2_verif = "profile")]
+#[path = "profile_verif.rs"]
+pub mod profile_verif;
+
 #[derive(Debug)]
 pub struct Profile {
     io: Option<Box<dyn IOHandler>>,
diff --git a/src/types/profile_verif.rs b/src/types/profile_verif.rs
new file mode 100644
index 0000000..e053125
--- /dev/null
+++ b/src/types/profile_verif.rs
@@ -0,0 +1,100 @@
+//! Verification hook: access to the private state of a [`Profile`]. Only built with `--cfg lcms2_verif="profile"`.
+
+use super::*;
+
+/// The header fields a profile keeps.
+#[derive(Copy, Clone)]
+pub struct Fields {
+    pub created: chrono::NaiveDateTime,
+    pub version: u32,
+    pub device_class: Signature,
+    pub color_space: Signature,
+    pub pcs: Signature,
+    pub rendering_intent: u32,
+    pub flags: u32,
+    pub manufacturer: u32,
+    pub model: u32,
+    pub attributes: u64,
+    pub creator: u32,
+    pub profile_id: ProfileID,
+    pub is_write: bool,
+}
+
+/// One row of the tag directory.
+#[derive(Copy, Clone, PartialEq)]
+pub struct Tag {
+    pub name: Signature,
+    pub linked: Option<Signature>,
+    pub size: usize,
+    pub offset: usize,
+    pub save_as_raw: bool,
+}
+
+pub fn fields(p: &Profile) -> Fields {
+    Fields {
+        created: p.created,
+        version: p.version,
+        device_class: p.device_class,
+        color_space: p.color_space,
+        pcs: p.pcs,
+        rendering_intent: p.rendering_intent,
+        flags: p.flags,
+        manufacturer: p.manufacturer,
+        model: p.model,
+        attributes: p.attributes,
+        creator: p.creator,
+        profile_id: p.profile_id,
+        is_write: p.is_write,
+    }
+}
+
+pub fn set_fields(p: &mut Profile, f: &Fields) {
+    p.created = f.created;
+    p.version = f.version;
+    p.device_class = f.device_class;
+    p.color_space = f.color_space;
+    p.pcs = f.pcs;
+    p.rendering_intent = f.rendering_intent;
+    p.flags = f.flags;
+    p.manufacturer = f.manufacturer;
+    p.model = f.model;
+    p.attributes = f.attributes;
+    p.creator = f.creator;
+    p.profile_id = f.profile_id;
+    p.is_write = f.is_write;
+}
+
+pub fn tag(p: &Profile, i: usize) -> Tag {
+    Tag {
+        name: p.tag_names[i],
+        linked: p.tag_linked[i],
+        size: p.tag_sizes[i],
+        offset: p.tag_offsets[i],
+        save_as_raw: p.tag_save_as_raw[i],
+    }
+}
+
+pub fn set_tag(p: &mut Profile, i: usize, t: &Tag) {
+    p.tag_names[i] = t.name;
+    p.tag_linked[i] = t.linked;
+    p.tag_sizes[i] = t.size;
+    p.tag_offsets[i] = t.offset;
+    p.tag_save_as_raw[i] = t.save_as_raw;
+}
+
+pub fn set_tag_count(p: &mut Profile, n: usize) {
+    p.tag_count = n;
+}
+
+pub fn set_io_handler(p: &mut Profile, io: Option<Box<dyn IOHandler>>) {
+    p.io = io;
+}
+
+/// Reads the header and the tag directory through the I/O handler of `p`, as opening a file does.
+pub fn read_header(p: &mut Profile, context: &mut Context) -> io::Result<()> {
+    p.read_header_thr(context)
+}
+
+pub fn search_tag(p: &Profile, sig: Signature, follow_links: bool) -> Option<usize> {
+    p.search_tag(sig, follow_links)
+}
-- 
2.43.0


From 4b3a667e6fb0a67eab181d161ddbd051b493a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 17/18] Verification hooks: plug-in payloads with any content
 (cfg lcms2_verif, off by default)

---
 src/plugins.rs          |  5 +++++
 src/plugins/tag.rs      | 14 ++++++++++++++
 src/plugins/tag_type.rs | 16 ++++++++++++++++
 3 files changed, 35 insertions(+)

diff --git a/src/plugins.rs b/src/plugins.rs
index 96919f9..32c3426 100644
--- a/src/plugins.rs
+++ b/src/plugins.rs
@@ -47,3 +47,8 @@ pub use transform::TransformCollection;
 pub use transform::TransformFactories;
 pub use transform::TransformFactory;
 pub use transform::TransformFn;
+
+#[cfg(lcms2_verif = "plugin")]
+pub use tag::tag_descriptor_verif;
+#[cfg(lcms2_verif = "plugin")]
+pub use tag_type::type_handler_verif;
diff --git a/src/plugins/tag.rs b/src/plugins/tag.rs
index e159efb..72ea48c 100644
--- a/src/plugins/tag.rs
+++ b/src/plugins/tag.rs
@@ -27,3 +27,17 @@ impl Debug for TagDescriptor {
             .finish()
     }
 }
+
+/// Verification hook: a descriptor with any content.
+#[cfg(lcms2_verif = "plugin")]
+pub fn tag_descriptor_verif(
+    element_count: usize,
+    supported_types: Vec<Signature>,
+    decide_type: TagTypeDecoder,
+) -> TagDescriptor {
+    TagDescriptor {
+        element_count,
+        supported_types,
+        decide_type,
+    }
+}
diff --git a/src/plugins/tag_type.rs b/src/plugins/tag_type.rs
index 4762172..862eed9 100644
--- a/src/plugins/tag_type.rs
+++ b/src/plugins/tag_type.rs
@@ -38,3 +38,19 @@ impl Debug for TypeHandler {
             .finish()
     }
 }
+
+/// Verification hook: a handler with any content.
+#[cfg(lcms2_verif = "plugin")]
+pub fn type_handler_verif(
+    signature: Signature,
+    icc_version: u32,
+    read: TagTypeReader,
+    write: TagTypeWriter,
+) -> TypeHandler {
+    TypeHandler {
+        signature,
+        icc_version,
+        read,
+        write,
+    }
+}
-- 
2.43.0


From a6a8e0ae76bd0f27920e883553023c5bde4fce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 18/18] Verification hooks: what plug-in payloads hold (cfg
 lcms2_verif, off by default)

---
 src/plugins.rs          | 4 ++--
 src/plugins/tag.rs      | 6 ++++++
 src/plugins/tag_type.rs | 6 ++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plugins.rs b/src/plugins.rs
index 32c3426..5200494 100644
--- a/src/plugins.rs
+++ b/src/plugins.rs
@@ -49,6 +49,6 @@ pub use transform::TransformFactory;
 pub use transform::TransformFn;
 
 #[cfg(lcms2_verif = "plugin")]
-pub use tag::tag_descriptor_verif;
+pub use tag::{tag_descriptor_parts_verif, tag_descriptor_verif};
 #[cfg(lcms2_verif = "plugin")]
-pub use tag_type::type_handler_verif;
+pub use tag_type::{type_handler_parts_verif, type_handler_verif};
diff --git a/src/plugins/tag.rs b/src/plugins/tag.rs
index 72ea48c..7250eac 100644
--- a/src/plugins/tag.rs
+++ b/src/plugins/tag.rs
@@ -41,3 +41,9 @@ pub fn tag_descriptor_verif(
         decide_type,
     }
 }
+
+/// Verification hook: what a descriptor holds.
+#[cfg(lcms2_verif = "plugin")]
+pub fn tag_descriptor_parts_verif(d: &TagDescriptor) -> (usize, &[Signature], TagTypeDecoder) {
+    (d.element_count, &d.supported_types, d.decide_type)
+}
diff --git a/src/plugins/tag_type.rs b/src/plugins/tag_type.rs
index 862eed9..2f23022 100644
--- a/src/plugins/tag_type.rs
+++ b/src/plugins/tag_type.rs
@@ -54,3 +54,9 @@ pub fn type_handler_verif(
         write,
     }
 }
+
+/// Verification hook: what a handler holds.
+#[cfg(lcms2_verif = "plugin")]
+pub fn type_handler_parts_verif(h: &TypeHandler) -> (Signature, u32, TagTypeReader, TagTypeWriter) {
+    (h.signature, h.icc_version, h.read, h.write)
+}
-- 
2.43.0

