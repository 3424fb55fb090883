From 87ab7da6f063f6ede65f5f1123e8502d2697e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 01/61] fix: set_jpeg_encode_progressive sets the progressive
 flag

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index fb59f6c..2b6366e 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -211,7 +211,7 @@ impl EncoderOptions {
     ///
     /// Default is `false`
     pub fn set_jpeg_encode_progressive(mut self, yes: bool) -> Self {
-        self.flags.jpeg_optimize_huffman = yes;
+        self.flags.jpeg_encode_progressive = yes;
         self
     }
 }
-- 
2.43.0


From e89bcd17ba3f930e8d44fc39815071308628d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 02/61] fix: strip_metadata reports the flag it was set to

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index 2b6366e..c634324 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -183,7 +183,7 @@ impl EncoderOptions {
     /// The default value is false, and encoders that respect this try to preserve as much
     /// data as possible from one image to another
     pub const fn strip_metadata(&self) -> bool {
-        !self.flags.image_strip_metadata
+        self.flags.image_strip_metadata
     }
 }
 
-- 
2.43.0


From c492660c534b3ce34c373d585b6c87991bb5f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 03/61] fix: command line reads --progressive and --strip as
 flags

---
 crates/zune-bin/src/cmd_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers.rs b/crates/zune-bin/src/cmd_parsers.rs
index c31635c..233f3a3 100644
--- a/crates/zune-bin/src/cmd_parsers.rs
+++ b/crates/zune-bin/src/cmd_parsers.rs
@@ -38,8 +38,8 @@ pub fn encoder_options(options: &ArgMatches) -> EncoderOptions {
     let quality = *options.get_one::<u8>("quality").unwrap();
     let encode_threads = *options.get_one::<u8>("encode-threads").unwrap();
     let effort = *options.get_one::<u8>("effort").unwrap();
-    let progressive = options.contains_id("progressive");
-    let strip_metadata = options.contains_id("strip");
+    let progressive = options.get_flag("progressive");
+    let strip_metadata = options.get_flag("strip");
 
     EncoderOptions::default()
         .set_quality(quality)
-- 
2.43.0


From 4c46a9b96be907f6bf373d8d727fbd60c81f818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 04/61] fix: disabling unsafe disables platform intrinsics

---
 crates/zune-core/src/options/decoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-core/src/options/decoder.rs b/crates/zune-core/src/options/decoder.rs
index 6093c70..3a9a96d 100644
--- a/crates/zune-core/src/options/decoder.rs
+++ b/crates/zune-core/src/options/decoder.rs
@@ -439,7 +439,7 @@ impl DecoderOptions {
     /// false if it's not present
     #[allow(unreachable_code)]
     pub fn use_sse2(&self) -> bool {
-        let opt = self.flags.zune_use_sse2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -472,7 +472,7 @@ impl DecoderOptions {
     /// it's not present
     #[allow(unreachable_code)]
     pub fn use_sse3(&self) -> bool {
-        let opt = self.flags.zune_use_sse3 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse3 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -504,7 +504,7 @@ impl DecoderOptions {
     /// is not present
     #[allow(unreachable_code)]
     pub fn use_sse41(&self) -> bool {
-        let opt = self.flags.zune_use_sse41 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse41 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -536,7 +536,7 @@ impl DecoderOptions {
     /// not present
     #[allow(unreachable_code)]
     pub fn use_avx(&self) -> bool {
-        let opt = self.flags.zune_use_avx | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -568,7 +568,7 @@ impl DecoderOptions {
     /// present
     #[allow(unreachable_code)]
     pub fn use_avx2(&self) -> bool {
-        let opt = self.flags.zune_use_avx2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -596,7 +596,7 @@ impl DecoderOptions {
 
     #[allow(unreachable_code)]
     pub fn use_neon(&self) -> bool {
-        let opt = self.flags.zune_use_neon | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_neon & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
-- 
2.43.0


From 5c4a26f6121e2256bf11a8da30405df65184c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:03 +0000
Subject: [PATCH 05/61] fix: deinterleave guards match the CPU features of the
 code they guard

---
 crates/zune-image/src/deinterleave/deinterleave_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/deinterleave/deinterleave_impls.rs b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
index dffc2fe..cf00416 100644
--- a/crates/zune-image/src/deinterleave/deinterleave_impls.rs
+++ b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
@@ -25,7 +25,7 @@ pub fn de_interleave_three_channels_u8(source: &[u8], c1: &mut [u8], c2: &mut [u
         {
             use crate::deinterleave::sse41::de_interleave_three_channels_sse3_u8;
 
-            if is_x86_feature_detected!("sse3") {
+            if is_x86_feature_detected!("sse4.1") {
                 unsafe {
                     return de_interleave_three_channels_sse3_u8(source, c1, c2, c3);
                 }
@@ -78,7 +78,7 @@ pub fn deinterleave_four_channels_u8(
         #[cfg(feature = "simd")]
         {
             use crate::deinterleave::avx2::de_interleave_four_channels_avx2;
-            if is_x86_feature_detected!("sse4.1") {
+            if is_x86_feature_detected!("avx2") {
                 unsafe {
                     return de_interleave_four_channels_avx2(source, c1, c2, c3, c4);
                 }
-- 
2.43.0


From 105ef03f8279cd54982e4d536d3a0f5ebfaa7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 06/61] fix: PSD colorspace is unknown until headers are
 decoded

---
 crates/zune-psd/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index de64502..a6d30e1 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -459,6 +459,9 @@ where
     /// Get image colorspace or None if the
     /// image header hasn't been decoded
     pub fn colorspace(&self) -> Option<ColorSpace> {
+        if !self.decoded_header {
+            return None;
+        }
         if let Some(color) = self.color_type {
             if color == ColorModes::RGB {
                 return if self.channel_count == 4 {
-- 
2.43.0


From d270f17bcebd01b66c1dd2e586a768477e060272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 07/61] fix: PSD rejects channel counts that do not match the
 color mode

---
 crates/zune-psd/src/decoder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index a6d30e1..da65167 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -196,6 +196,18 @@ where
             self.channel_count = 1;
         }
 
+        // the reported colorspace is derived from the color mode, hence
+        // the number of channels we decode must match it
+        let enough_channels = match self.color_type {
+            Some(ColorModes::RGB) => self.channel_count >= 3,
+            Some(ColorModes::CYMK) => self.channel_count == 4,
+            _ => true
+        };
+
+        if !enough_channels {
+            return Err(PSDDecodeErrors::UnsupportedChannelCount(channel_count));
+        }
+
         self.compression = CompressionMethod::from_int(compression).unwrap();
 
         self.decoded_header = true;
-- 
2.43.0


From 315048f4f5e6e31ee0869380969909eadfbb3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 08/61] fix: farbfeld header decoding is idempotent

---
 crates/zune-farbfeld/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 95b7348..6cff156 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -56,6 +56,9 @@ where
     }
     /// Decode a header for this specific image
     pub fn decode_headers(&mut self) -> Result<(), FarbFeldErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         // read magic
 
         let magic_value = self.stream.get_u64_be_err()?.to_be_bytes();
-- 
2.43.0


From 7e2276b96aa0571bc4c84dec115df60e39db4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 09/61] fix: ppm header decoding is idempotent

---
 crates/zune-ppm/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a169a88..6ab7f15 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -140,6 +140,9 @@ where
     ///
     /// [`get_dimensions`]:Self::dimensions
     pub fn decode_headers(&mut self) -> Result<(), PPMDecodeErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         let p = self.reader.read_u8_err()?;
         let version = self.reader.read_u8_err()?;
 
-- 
2.43.0


From 0a00427d5d60c284ee3c5368511fbd599dec88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 10/61] fix: qoi header decoding is idempotent

---
 crates/zune-qoi/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index a9298d5..4070faa 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -117,6 +117,9 @@ where
     ///
     /// [QoiErrors]:crate::errors::QoiErrors
     pub fn decode_headers(&mut self) -> Result<(), QoiErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         //let header_bytes = 4/*magic*/ + 8/*Width+height*/ + 1/*channels*/ + 1 /*colorspace*/;
 
         // match magic bytes.
-- 
2.43.0


From ce1e779f93065095a423d2623ebb88a0971570f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 11/61] fix: fcTL chunks of still PNGs do not end header
 decoding

---
 crates/zune-png/src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cf55eb3..763497c 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -414,7 +414,9 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             }
             // break here, we already have content for one
             // frame, subsequent calls will fetch the next frames
-            if header.chunk_type == PngChunkType::fcTL {
+            //
+            // without an acTL chunk the image is a still image, which has no next frames
+            if header.chunk_type == PngChunkType::fcTL && self.actl_info.is_some() {
                 break;
             }
         }
-- 
2.43.0


From 5c1ea7ed288a60ee6e0861ed1fc3822343658a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 12/61] fix: farbfeld buffer length is counted in the samples
 decode_into takes

---
 crates/zune-farbfeld/src/decoder.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 6cff156..bb26cfd 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -89,16 +89,15 @@ where
     /// to store decoded bytes into
     ///
     /// ## Returns
-    /// -  Some(usize) - The size expected for a buffer of `&[u8]` which can
-    ///  hold the whole decoded bytes without overflow
-    /// - None: Indicates the headers weren't decoded or width*height*8 would overflow a usize
+    /// -  Some(usize) - The length expected for a buffer of `&[u16]` which can
+    ///  hold the whole decoded image without overflow
+    /// - None: Indicates the headers weren't decoded or width*height*4 would overflow a usize
     pub fn output_buffer_size(&self) -> Option<usize> {
         if self.decoded_headers {
             Some(
                 (FARBFELD_COLORSPACE.num_components()/*RGBA*/)
                     .checked_mul(self.width)?
                     .checked_mul(self.height)?
-                    .checked_mul(2 /*depth*/)?
             )
         } else {
             None
@@ -157,9 +156,9 @@ where
     pub fn decode(&mut self) -> Result<Vec<u16>, FarbFeldErrors> {
         self.decode_headers()?;
 
-        let size = (FARBFELD_COLORSPACE.num_components()/*RGBA*/)
-            .saturating_mul(self.width)
-            .saturating_mul(self.height);
+        let size = self
+            .output_buffer_size()
+            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?;
 
         // NOTE: This can be done via data.align() + decode_into()
         // but that's unsafe, and doesn't please the Rust gods
-- 
2.43.0


From 6f606c269b9d09596aeea7f8b7bbc85b3ae29a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 13/61] fix: qoi reports size overflow instead of panicking

---
 crates/zune-qoi/src/decoder.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index 4070faa..407a61e 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -192,15 +192,12 @@ where
     ///
     /// # Returns
     ///  - `Some(usize)`: Minimum size for a buffer needed to decode the image
-    ///  - `None`: Indicates the image was not decoded.
-    ///
-    /// # Panics
-    /// In case `width*height*colorspace` calculation may overflow a usize
+    ///  - `None`: Indicates the image was not decoded or
+    /// `width*height*colorspace` calculation overflows a usize
     pub fn output_buffer_size(&self) -> Option<usize> {
         if self.decoded_headers {
             self.width
-                .checked_mul(self.height)
-                .unwrap()
+                .checked_mul(self.height)?
                 .checked_mul(self.colorspace.num_components())
         } else {
             None
@@ -226,7 +223,11 @@ where
         if !self.decoded_headers {
             self.decode_headers()?;
         }
-        let mut output = vec![0; self.output_buffer_size().unwrap()];
+        let size = self
+            .output_buffer_size()
+            .ok_or(QoiErrors::GenericStatic("Output size overflows a usize"))?;
+
+        let mut output = vec![0; size];
 
         self.decode_into(&mut output)?;
 
@@ -251,11 +252,12 @@ where
             self.decode_headers()?;
         }
 
-        if pixels.len() < self.output_buffer_size().unwrap() {
-            return Err(QoiErrors::InsufficientData(
-                self.output_buffer_size().unwrap(),
-                pixels.len()
-            ));
+        let size = self
+            .output_buffer_size()
+            .ok_or(QoiErrors::GenericStatic("Output size overflows a usize"))?;
+
+        if pixels.len() < size {
+            return Err(QoiErrors::InsufficientData(size, pixels.len()));
         }
 
         match self.colorspace.num_components() {
-- 
2.43.0


From b2e7d81a70d5356235971dc5450e913d524d4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:41 +0000
Subject: [PATCH 14/61] fix: bmp reports a too small output buffer instead of
 panicking

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 23259bb..50a7e33 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -733,6 +733,9 @@ where
             .output_buf_size()
             .ok_or(BmpDecoderErrors::OverFlowOccurred)?;
 
+        if buf.len() < output_size {
+            return Err(BmpDecoderErrors::TooSmallBuffer(output_size, buf.len()));
+        }
         let buf = &mut buf[0..output_size];
 
         if self.comp == BmpCompression::RLE4 || self.comp == BmpCompression::RLE8 {
-- 
2.43.0


From 273953669a2a49ed94bad88cd8f107b7126c9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 15/61] fix: C API decodes QOI images with the QOI decoder

---
 crates/zune-capi/src/imread.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index edd5217..1008542 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -11,6 +11,7 @@ use zune_image::codecs::jpeg::JpegDecoder;
 use zune_image::codecs::png::PngDecoder;
 use zune_image::codecs::ppm::PPMDecoder;
 use zune_image::codecs::psd::PSDDecoder;
+use zune_image::codecs::qoi::QoiDecoder;
 use zune_image::codecs::ImageFormat;
 use zune_image::errors::ImageErrors;
 
@@ -492,7 +493,7 @@ where
             }
             ImageFormat::QOI => {
                 // just write into buffer
-                let mut decoder = JpegDecoder::new(data);
+                let mut decoder = QoiDecoder::new(data);
 
                 decoder.decode_into(output)?;
             }
-- 
2.43.0


From 4db334f14165e4d7b52070ab0e9c526537f75413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 16/61] fix: C API decodes PNG headers before asking for the
 depth

---
 crates/zune-capi/src/imread.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 1008542..3540492 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -381,6 +381,7 @@ where
                 // we expect the caller to have appropriately taken care of allocating enough to hold 16 bit
                 //
                 let mut decoder = PngDecoder::new(data);
+                decoder.decode_headers()?;
 
                 match decoder.depth().unwrap() {
                     BitDepth::Eight => {
-- 
2.43.0


From 3e465cb16f3236ef510a3e405b99d443a0db4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 17/61] fix: zil_status_free frees the message once

---
 crates/zune-capi/src/errno.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/errno.rs b/crates/zune-capi/src/errno.rs
index 274d251..5ed21f4 100644
--- a/crates/zune-capi/src/errno.rs
+++ b/crates/zune-capi/src/errno.rs
@@ -160,8 +160,7 @@ pub extern "C" fn zil_status_message(status: *const ZStatus) -> *const c_char {
 #[no_mangle]
 pub extern "C" fn zil_status_free(status: *mut ZStatus) {
     if !status.is_null() {
-        unsafe { zil_free((*status).message.cast()) }
-        // free object
+        // free object, this also frees the message
         unsafe { status.drop_in_place() }
 
         // free memory holding it
-- 
2.43.0


From 3f72b860bdd7f8991e76f0d968b08c8ceea5f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 18/61] fix: zil_zimg_new does not drop uninitialized memory

---
 crates/zune-capi/src/image.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 1cd9d41..199a2cd 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -156,8 +156,11 @@ pub extern "C" fn zil_zimg_write_to_output(
 /// This is the preferred way to initialize this, not via memset or malloc+sizeof
 #[no_mangle]
 pub extern "C" fn zil_zimg_new() -> *mut ZImage {
-    let ptr = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
-    unsafe { *ptr = ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown) };
+    let ptr: *mut ZImage = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
+    if !ptr.is_null() {
+        // memory is uninitialized, so it shouldn't be dropped
+        unsafe { ptr.write(ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown)) };
+    }
     ptr
 }
 /// Free an image
-- 
2.43.0


From dc6bf952f89a6c99506b57986463eb40d10fcca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 19/61] fix: zil_zimg_from_u16/f32 count pixels in elements,
 not bytes

---
 crates/zune-capi/src/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 199a2cd..0d7b83a 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -401,7 +401,7 @@ pub extern "C" fn zil_zimg_from_u16(
     if let Some(size) = checked_mul(
         width,
         height,
-        2,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
@@ -437,7 +437,7 @@ pub extern "C" fn zil_zimg_from_f32(
     if let Some(size) = checked_mul(
         width,
         height,
-        4,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
-- 
2.43.0


From 7b51ae1c0fb5433c36481bc1665e52a2200701b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 20/61] fix: zil_imread returns early when status is null

---
 crates/zune-capi/src/imread.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 3540492..d7bf222 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -50,6 +50,9 @@ pub extern "C" fn zil_imread(
     file: *const c_char, width: *mut usize, height: *mut usize, depth: *mut ZImageDepth,
     channels: *mut usize, status: *mut ZStatus
 ) -> *const c_char {
+    if status.is_null() {
+        return ptr::null();
+    }
     // safety: The caller is supposed to uphold this
     let binding = unsafe { CStr::from_ptr(file) }.to_string_lossy();
     let file_cstr = binding.as_ref();
-- 
2.43.0


From 7369b05fa01bc79bc41a5786cc1f1e1d1dbf950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:55 +0000
Subject: [PATCH 21/61] fix: C API reports formats it cannot decode into a
 buffer

---
 crates/zune-capi/src/imread.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index d7bf222..2cfd1f5 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -543,8 +543,9 @@ where
 
                 decoder.decode_into(output)?
             }
-            _ => {}
+            _ => return Err(ImageErrors::GenericStr("Unsupported image format"))
         }
+        return Ok(());
     }
-    Ok(())
+    Err(ImageErrors::GenericStr("Unknown image format"))
 }
-- 
2.43.0


From 9903993da3faabf93deb510aced300ab584d0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 22/61] fix: the alpha channel of grayscale images with alpha
 is the last one

---
 crates/zune-image/src/frame.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/zune-image/src/frame.rs b/crates/zune-image/src/frame.rs
index d3a024d..d886c57 100644
--- a/crates/zune-image/src/frame.rs
+++ b/crates/zune-image/src/frame.rs
@@ -616,15 +616,13 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at(position);
+        let position = color_space.alpha_position().expect("No way!!");
+        let alpha_first = position == 0;
+        let (src_c1, src_c2) = self.channels.split_at(position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if alpha_first {
             // argb
             src_alpha_channel = &src_c1[0];
             src_color_channels = src_c2;
@@ -660,15 +658,13 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at_mut(position);
+        let position = color_space.alpha_position().expect("No way!!");
+        let alpha_first = position == 0;
+        let (src_c1, src_c2) = self.channels.split_at_mut(position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if alpha_first {
             // argb
             src_alpha_channel = &mut src_c1[0];
             src_color_channels = src_c2;
-- 
2.43.0


From 1864e0c9a10fb63afc94b25ed78ccaad135a8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 23/61] fix: invariants are checked for the alpha channel too

---
 crates/zune-image/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 3f74b0f..6f06a34 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -238,7 +238,7 @@ fn confirm_invariants(image: &Image) -> Result<(), ImageErrors> {
 
     let expected_length = image.depth().size_of() * width * height;
 
-    for channel in image.channels_ref(true) {
+    for channel in image.channels_ref(false) {
         if channel.len() != expected_length {
             return Err(ImageErrors::DimensionsMisMatch(
                 expected_length,
-- 
2.43.0


From 88cccd4aed2d808bd8432c7df0b05a0c661a3b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 24/61] fix: encode_to_result returns the encoded data

---
 crates/zune-image/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 6f06a34..ffc7f40 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -386,10 +386,10 @@ pub trait EncoderTrait {
     /// and format in `EncodeResult`
     fn encode_to_result(&mut self, image: &Image) -> Result<EncodeResult, ImageErrors> {
         let mut sink = vec![];
-        let data = self.encode(image, &mut sink)?;
+        self.encode(image, &mut sink)?;
 
         Ok(EncodeResult {
-            data:   vec![],
+            data:   sink,
             format: self.format()
         })
     }
-- 
2.43.0


From 8ab2eeb2b5c32a6107072f3c9fb84bd42d27c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 25/61] fix: save_to reports errors of the final flush

---
 crates/zune-image/src/codecs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index 23bbb3d..522ec80 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -513,6 +513,8 @@ impl Image {
                 .open(file)?
         );
         self.encode(format, &mut file)?;
+        // dropping the buffered writer would hide errors
+        std::io::Write::flush(&mut file)?;
         Ok(())
     }
 
-- 
2.43.0


From 8d05a04dac3fecdd4be517744916da4b5c509760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 26/61] fix: WebP decoding honours the caller's dimension
 limits

---
 crates/zune-image/src/codecs.rs      |  2 +-
 crates/zune-image/src/codecs/webp.rs | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index 522ec80..d76acc0 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -256,7 +256,7 @@ impl ImageFormat {
             ImageFormat::WEBP => {
                 #[cfg(feature = "webp")]
                 {
-                    Ok(Box::new(codecs::webp::ZuneWebpDecoder::new(data)?))
+                    Ok(Box::new(codecs::webp::ZuneWebpDecoder::new_with_options(data, options)?))
                 }
                 #[cfg(not(feature = "webp"))]
                 {
diff --git a/crates/zune-image/src/codecs/webp.rs b/crates/zune-image/src/codecs/webp.rs
index 6046e11..c45b478 100644
--- a/crates/zune-image/src/codecs/webp.rs
+++ b/crates/zune-image/src/codecs/webp.rs
@@ -5,6 +5,7 @@ use std::io::{BufRead, Seek};
 use image_webp::DecodingError;
 use zune_core::bit_depth::BitDepth;
 use zune_core::colorspace::ColorSpace;
+use zune_core::options::DecoderOptions;
 
 use crate::codecs::ImageFormat;
 use crate::errors::ImageErrors;
@@ -17,11 +18,25 @@ pub struct ZuneWebpDecoder<T: BufRead + Seek> {
 }
 impl<T: BufRead + Seek> ZuneWebpDecoder<T> {
     pub fn new(r: T) -> Result<Self, ImageErrors> {
-        let decoder = image_webp::WebPDecoder::new(r).map_err(|e| {
-            println!("{:?}", e);
-            ImageErrors::ImageDecodeErrors(e.to_string())
-        })?;
-        return Ok(ZuneWebpDecoder { inner: decoder });
+        Self::new_with_options(r, DecoderOptions::default())
+    }
+
+    pub fn new_with_options(r: T, options: DecoderOptions) -> Result<Self, ImageErrors> {
+        let decoder = image_webp::WebPDecoder::new(r)
+            .map_err(|e| ImageErrors::ImageDecodeErrors(e.to_string()))?;
+
+        let (width, height) = decoder.dimensions();
+
+        if width as usize > options.max_width() || height as usize > options.max_height() {
+            return Err(ImageErrors::ImageDecodeErrors(format!(
+                "WebP image dimensions {}x{} exceed the limits {}x{}",
+                width,
+                height,
+                options.max_width(),
+                options.max_height()
+            )));
+        }
+        Ok(ZuneWebpDecoder { inner: decoder })
     }
 }
 impl<T: BufRead + Seek> DecoderTrait for ZuneWebpDecoder<T> {
-- 
2.43.0


From 0e47622e904e23c724e406edb2d77820314e5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 27/61] fix: wasm reports formats without a counterpart as
 unknown

---
 crates/zune-wasm/src/enums.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-wasm/src/enums.rs b/crates/zune-wasm/src/enums.rs
index 769beab..1d56ecf 100644
--- a/crates/zune-wasm/src/enums.rs
+++ b/crates/zune-wasm/src/enums.rs
@@ -111,7 +111,8 @@ impl WasmImageFormats {
             ImageFormat::JPEG_XL => Self::JPEG_XL,
             ImageFormat::HDR => Self::HDR,
             ImageFormat::BMP => Self::BMP,
-            _ => todo!("Support format {:?}", format)
+            // formats without a counterpart
+            _ => Self::Unknown
         }
     }
     pub fn to_format(&self) -> ImageFormat {
-- 
2.43.0


From c05e5088073ceb5c7ea6e48a51120f2bc9b7989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 28/61] fix: C API operations check the image as
 OperationsTrait::execute does

---
 crates/zune-capi/src/improc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/improc.rs b/crates/zune-capi/src/improc.rs
index ad449b1..73b2ceb 100644
--- a/crates/zune-capi/src/improc.rs
+++ b/crates/zune-capi/src/improc.rs
@@ -39,7 +39,7 @@ where
     }
     let image = unsafe { &mut *image };
 
-    if let Err(err) = filter.execute_impl(image) {
+    if let Err(err) = filter.execute(image) {
         unsafe {
             *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError);
         }
-- 
2.43.0


From 27d24c9ff577770f8251ef35bd08a39ac0d25da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 29/61] fix: C API frees the output buffer when decoding fails

---
 crates/zune-capi/src/imread.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 2cfd1f5..a9bbd2e 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -18,7 +18,7 @@ use zune_image::errors::ImageErrors;
 use crate::enums::{ZImageColorspace, ZImageDepth, ZImageFormat};
 use crate::errno::{zil_status_ok, ZStatus, ZStatusType};
 use crate::structs::ZImageMetadata;
-use crate::utils::zil_malloc;
+use crate::utils::{zil_free, zil_malloc};
 
 /// Read image contents of a file and return a pointer to the decoded bytes
 ///
@@ -91,6 +91,7 @@ pub extern "C" fn zil_imread(
                 if zil_status_ok(status) {
                     return output.cast();
                 }
+                unsafe { zil_free(output) };
             } else {
                 unsafe {
                     *status = ZStatus::new("ZilUnknownDepth image format", ZStatusType::ZilGeneric)
@@ -286,6 +287,7 @@ pub extern "C" fn zil_imdecode(
             if zil_status_ok(status) {
                 return output.cast();
             }
+            unsafe { zil_free(output) };
         }
     }
     ptr::null()
-- 
2.43.0


From d39c13ca1bebdb6b8798a0a49e189f1513fa2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 30/61] fix: zil_status_new does not leak when an allocation
 fails

---
 crates/zune-capi/src/errno.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/zune-capi/src/errno.rs b/crates/zune-capi/src/errno.rs
index 5ed21f4..6ca2479 100644
--- a/crates/zune-capi/src/errno.rs
+++ b/crates/zune-capi/src/errno.rs
@@ -105,20 +105,22 @@ pub extern "C" fn zil_status_ok(status: *const ZStatus) -> bool {
 #[no_mangle]
 pub unsafe extern "C" fn zil_status_new() -> *mut ZStatus {
     let ptr = zil_malloc(size_of::<ZStatus>());
+    if ptr.is_null() {
+        return ptr::null_mut();
+    }
 
     let msg = CString::new("").unwrap();
     let mem = unsafe { zil_malloc(msg.as_bytes_with_nul().len()) };
     if mem.is_null() {
+        zil_free(ptr);
         return ptr::null_mut();
     }
     // copy to memory
     unsafe {
         libc::strcpy(mem.cast(), msg.as_ptr());
     }
-    if !ptr.is_null() {
-        (*ptr.cast::<ZStatus>()).message = mem.cast();
-        (*ptr.cast::<ZStatus>()).status = ZStatusType::ZilOk;
-    }
+    (*ptr.cast::<ZStatus>()).message = mem.cast();
+    (*ptr.cast::<ZStatus>()).status = ZStatusType::ZilOk;
     // make pointer
     ptr.cast()
 }
-- 
2.43.0


From 9bfc073bf47c3c9a5c1257bb73348c42a57b7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 31/61] fix: zune-png: report unreadable ancillary chunks
 instead of panicking

---
 crates/zune-png/src/headers/readers.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index e0853f2..6236a0c 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -293,7 +293,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_exif(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let data = self.stream.peek_at(0, chunk.length).unwrap();
+        let data = self.stream.peek_at(0, chunk.length)?;
 
         // recommended that we check for first four bytes compatibility
         // so do it here
@@ -321,7 +321,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the iCCP chunk
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -338,7 +338,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(icc_uncompressed) = DeflateDecoder::new(data).decode_zlib() {
@@ -360,7 +360,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the text chunk
     pub(crate) fn parse_text(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -372,7 +372,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             // read remaining chunk
 
-            let text = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let text = self.stream.peek_at(0, remainder)?.to_vec();
 
             let text_chunk = TextChunk { keyword, text };
             self.png_info.text_chunk.push(text_chunk);
@@ -390,7 +390,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the itXT chunk
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -404,7 +404,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             self.stream.skip(bytes_to_skip)?;
             let remainder = chunk.length.saturating_sub(bytes_to_skip);
-            let raw_data = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let raw_data = self.stream.peek_at(0, remainder)?.to_vec();
 
             let itxt_chunk = ItxtChunk {
                 keyword,
@@ -425,7 +425,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse zTxt chunk
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -444,7 +444,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(ztxt) = DeflateDecoder::new(data).decode_zlib() {
-- 
2.43.0


From fc31cb4676fac3ee276b0b7535e41016e924ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 32/61] fix: zune-qoi: report a failed write of a difference op

---
 crates/zune-qoi/src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-qoi/src/encoder.rs b/crates/zune-qoi/src/encoder.rs
index 60156fb..9ec78b7 100644
--- a/crates/zune-qoi/src/encoder.rs
+++ b/crates/zune-qoi/src/encoder.rs
@@ -185,12 +185,12 @@ impl<'a> QoiEncoder<'a> {
                             && !(2..=253).contains(&vg)
                             && !(2..=253).contains(&vb)
                         {
-                            stream.write_u8(
+                            stream.write_u8_err(
                                 QOI_OP_DIFF
                                     | vr.wrapping_add(2) << 4
                                     | vg.wrapping_add(2) << 2
                                     | vb.wrapping_add(2)
-                            );
+                            )?;
                         } else if !(8..=247).contains(&vg_r)
                             && !(32..=223).contains(&vg)
                             && !(8..=247).contains(&vg_b)
-- 
2.43.0


From 390780b0d62985f51bc03b2f1c93d6cf6fcc42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 33/61] fix: zune-farbfeld: report failed header writes

---
 crates/zune-farbfeld/src/encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/zune-farbfeld/src/encoder.rs b/crates/zune-farbfeld/src/encoder.rs
index e9aeda1..96e76e7 100644
--- a/crates/zune-farbfeld/src/encoder.rs
+++ b/crates/zune-farbfeld/src/encoder.rs
@@ -123,9 +123,7 @@ impl<'a> FarbFeldEncoder<'a> {
     fn encode_headers<T: ZByteWriterTrait>(
         &self, stream: &mut ZWriter<T>
     ) -> Result<(), FarbFeldEncoderErrors> {
-        // these routines panic because I need them
-        // to panic as it is a me problem
-        stream.write_all(b"farbfeld").unwrap();
+        stream.write_all(b"farbfeld")?;
 
         if (self.options.width() as u64) > u64::from(u32::MAX) {
             // error out
@@ -139,8 +137,8 @@ impl<'a> FarbFeldEncoder<'a> {
             ));
         }
         // dimensions
-        stream.write_u32_be(self.options.width() as u32);
-        stream.write_u32_be(self.options.height() as u32);
+        stream.write_u32_be_err(self.options.width() as u32)?;
+        stream.write_u32_be_err(self.options.height() as u32)?;
 
         Ok(())
     }
-- 
2.43.0


From 663502d938ce65ce44d875aee1deb62951e2c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 34/61] fix: zune-hdr: report a failed write of a run length

---
 crates/zune-hdr/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 2bb9f41..fda65da 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -239,7 +239,7 @@ fn rle<T: ZByteWriterTrait>(
         while cur < beg_run {
             let nonrun_count = 128.min(beg_run - cur);
             buf[0] = nonrun_count as u8;
-            writer.write_u8(buf[0]);
+            writer.write_u8_err(buf[0])?;
             for i in 0..nonrun_count {
                 writer.write_u8_err(data[(cur + i) * 4])?;
             }
-- 
2.43.0


From d2bab48e71d405f595866131e9ec1284e2c03b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 35/61] fix: zune-png: report a failed write of the signature

---
 crates/zune-png/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/encoder.rs b/crates/zune-png/src/encoder.rs
index 4f3f78a..bfbae88 100644
--- a/crates/zune-png/src/encoder.rs
+++ b/crates/zune-png/src/encoder.rs
@@ -55,7 +55,7 @@ impl<'a> PngEncoder<'a> {
         &self, writer: &mut ZWriter<T>
     ) -> Result<(), ZByteIoError> {
         // write signature
-        writer.write_u64_be(PNG_SIGNATURE);
+        writer.write_u64_be_err(PNG_SIGNATURE)?;
         // write ihdr
         write_header_fn(self, writer, b"IHDR", write_ihdr)?;
 
-- 
2.43.0


From 746bf56a756d1030d952856ebe44e995b4493185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 36/61] fix: zune-ppm: report a failed header write

---
 crates/zune-ppm/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index b860aa2..358ad17 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -136,7 +136,7 @@ impl<'a> PPMEncoder<'a> {
             }
         };
 
-        stream.write_all(header.as_bytes()).unwrap();
+        stream.write_all(header.as_bytes())?;
 
         Ok(())
     }
-- 
2.43.0


From ce132f4778d40f2456ab3f8d07d63096c0701962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 37/61] fix: zune-qoi: report a truncated header

---
 crates/zune-qoi/src/decoder.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index 407a61e..fc0b1e1 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -129,12 +129,10 @@ where
             return Err(QoiErrors::WrongMagicBytes);
         }
 
-        // these were confirmed to be inbounds by has so use the non failing
-        // routines
-        let width = self.stream.get_u32_be() as usize;
-        let height = self.stream.get_u32_be() as usize;
-        let colorspace = self.stream.read_u8();
-        let colorspace_layout = self.stream.read_u8();
+        let width = self.stream.get_u32_be_err()? as usize;
+        let height = self.stream.get_u32_be_err()? as usize;
+        let colorspace = self.stream.read_u8_err()?;
+        let colorspace_layout = self.stream.read_u8_err()?;
 
         if width > self.options.max_width() {
             let msg = format!(
-- 
2.43.0


From 02e649b365188e73b93d5053a25de932a6119f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 38/61] fix: zune-ppm: report a header without the expected
 numbers

---
 crates/zune-ppm/src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 6ab7f15..67822fc 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -425,11 +425,13 @@ where
 
     fn get_integer(&mut self) -> Result<usize, PPMDecodeErrors> {
         let mut value = 0_usize;
+        let mut has_digits = false;
 
         while !self.reader.eof()? {
             let byte = self.reader.read_u8();
 
             if byte.is_ascii_digit() {
+                has_digits = true;
                 // if it overflows, we have bigger problems.
                 value = value
                     .wrapping_mul(10_usize)
@@ -440,6 +442,9 @@ where
                 break;
             }
         }
+        if !has_digits {
+            return Err(PPMDecodeErrors::GenericStatic("Expected a number in header"));
+        }
         Ok(value)
     }
 
-- 
2.43.0


From f0bc6e5bbae766b88b0199727ea468c123bb0455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 39/61] fix: declare all the sample types ImageTransfer
 implements

Resize runs it on 16-bit and float images, and it handles them, but its
list named 8-bit only, so running it directly on such images was refused.
---
 crates/zune-imageprocs/src/image_transfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/image_transfer.rs b/crates/zune-imageprocs/src/image_transfer.rs
index 1759eec..2b968e7 100644
--- a/crates/zune-imageprocs/src/image_transfer.rs
+++ b/crates/zune-imageprocs/src/image_transfer.rs
@@ -122,7 +122,7 @@ impl OperationsTrait for ImageTransfer {
     }
 
     fn supported_types(&self) -> &'static [BitType] {
-        &[BitType::U8]
+        &[BitType::U8, BitType::U16, BitType::F32]
     }
 }
 pub fn build_8_bit_gamma_to_linear_lut_table(transfer_function: TransferFunction) -> [u8; 256] {
-- 
2.43.0


From 16a03e467635bcf5302f626b317955bd6725a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 40/61] fix: png encoder: refuse colorspaces and depths PNG
 cannot store

Other colorspaces hit unreachable!() while writing IHDR and float images
were written with a bit depth of 32.
---
 crates/zune-png/src/encoder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/zune-png/src/encoder.rs b/crates/zune-png/src/encoder.rs
index bfbae88..8a4049a 100644
--- a/crates/zune-png/src/encoder.rs
+++ b/crates/zune-png/src/encoder.rs
@@ -6,7 +6,9 @@
 
 use alloc::vec::Vec;
 
+use zune_core::bit_depth::BitDepth;
 use zune_core::bytestream::{ZByteIoError, ZByteWriterTrait, ZWriter};
+use zune_core::colorspace::ColorSpace;
 use zune_core::options::EncoderOptions;
 use zune_inflate::DeflateEncoder;
 
@@ -54,6 +56,18 @@ impl<'a> PngEncoder<'a> {
     pub fn encode_headers<T: ZByteWriterTrait>(
         &self, writer: &mut ZWriter<T>
     ) -> Result<(), ZByteIoError> {
+        if !matches!(
+            self.options.colorspace(),
+            ColorSpace::Luma | ColorSpace::LumaA | ColorSpace::RGB | ColorSpace::RGBA
+        ) {
+            return Err(ZByteIoError::Generic("Unsupported colorspace for png"));
+        }
+        if !matches!(
+            self.options.depth(),
+            BitDepth::Eight | BitDepth::Sixteen
+        ) {
+            return Err(ZByteIoError::Generic("Unsupported bit depth for png"));
+        }
         // write signature
         writer.write_u64_be_err(PNG_SIGNATURE)?;
         // write ihdr
-- 
2.43.0


From 3125fbc5c8e5d902b4672994d54510897074e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 41/61] fix: encoders: report unsupported depths and
 overflowing dimensions

The PPM encoder hit unreachable!() for float images; PPM, farbfeld, QOI
and JPEG-XL panicked (or wrapped) when the size of the declared
dimensions overflows instead of returning an error.
---
 crates/zune-farbfeld/src/encoder.rs | 24 +++++++-----------------
 crates/zune-jpegxl/src/encoder.rs   | 14 ++++++--------
 crates/zune-ppm/src/encoder.rs      | 20 ++++++++++++++++----
 crates/zune-qoi/src/encoder.rs      |  9 ++++++---
 4 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/crates/zune-farbfeld/src/encoder.rs b/crates/zune-farbfeld/src/encoder.rs
index 96e76e7..8de244a 100644
--- a/crates/zune-farbfeld/src/encoder.rs
+++ b/crates/zune-farbfeld/src/encoder.rs
@@ -157,14 +157,16 @@ impl<'a> FarbFeldEncoder<'a> {
             ));
         }
 
-        let expected = calc_expected_size(self.options);
+        let expected = calc_expected_size(self.options).ok_or(
+            FarbFeldEncoderErrors::TooLargeDimensions(self.options.width())
+        )?;
         let found = self.data.len();
 
         if expected != found {
             return Err(FarbFeldEncoderErrors::TooShortInput(expected, found));
         }
 
-        let out_size = calc_out_size(self.options);
+        let out_size = expected.saturating_add(FARBFELD_HEADER_SIZE);
 
         let mut stream = ZWriter::new(sink);
 
@@ -189,22 +191,10 @@ impl<'a> FarbFeldEncoder<'a> {
 // will never be true(if it's true we have bigger problems)
 const FARBFELD_HEADER_SIZE: usize = 20;
 
-#[inline]
-fn calc_out_size(options: EncoderOptions) -> usize {
+fn calc_expected_size(options: EncoderOptions) -> Option<usize> {
     options
         .width()
-        .checked_mul(2)
-        .unwrap()
-        .checked_mul(options.height())
-        .unwrap()
+        .checked_mul(2)?
+        .checked_mul(options.height())?
         .checked_mul(4)
-        .unwrap()
-        .checked_add(FARBFELD_HEADER_SIZE)
-        .unwrap()
-}
-
-fn calc_expected_size(options: EncoderOptions) -> usize {
-    calc_out_size(options)
-        .checked_sub(FARBFELD_HEADER_SIZE)
-        .unwrap()
 }
diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 7ef8e48..28d19fc 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -1088,7 +1088,6 @@ impl<'a> JxlSimpleEncoder<'a> {
         let colorspace = self.options.colorspace();
         let effort = usize::from(self.options.effort()).clamp(0, 127);
         let num_components = colorspace.num_components();
-        let stride = depth.size_of() * width * num_components;
 
         if !SUPPORTED_COLORSPACES.contains(&colorspace) {
             return Err(JxlEncodeErrors::UnsupportedColorspace(colorspace));
@@ -1109,12 +1108,14 @@ impl<'a> JxlSimpleEncoder<'a> {
             trace!("Configured threads: {:?}", self.options.num_threads());
         }
 
-        let expected = calculate_expected_input(&self.options);
+        let expected = calculate_expected_input(&self.options)
+            .ok_or(JxlEncodeErrors::TooLargeDimensions(width))?;
         let found = self.data.len();
 
         if expected != found {
             return Err(JxlEncodeErrors::LengthMismatch(expected, found));
         }
+        let stride = depth.size_of() * width * num_components;
 
         let num_groups_x = (width + 255) / 256;
         let num_groups_y = (height + 255) / 256;
@@ -1594,15 +1595,12 @@ fn prepare_header(frame: &mut FrameState, add_image_header: bool, is_last: bool)
     output.zero_pad();
 }
 
-fn calculate_expected_input(options: &EncoderOptions) -> usize {
+fn calculate_expected_input(options: &EncoderOptions) -> Option<usize> {
     options
         .width()
-        .checked_mul(options.depth().size_of())
-        .unwrap()
-        .checked_mul(options.height())
-        .unwrap()
+        .checked_mul(options.depth().size_of())?
+        .checked_mul(options.height())?
         .checked_mul(options.colorspace().num_components())
-        .unwrap()
 }
 
 // #[test]
diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index 358ad17..e3d521e 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -152,17 +152,25 @@ impl<'a> PPMEncoder<'a> {
     /// - Err: An error in case something bad happened, contents of `out` are to be treated as invalid
     pub fn encode<T: ZByteWriterTrait>(&self, out: T) -> Result<usize, PPMEncodeErrors> {
         let found = self.data.len();
-        let expected = calc_expected_size(self.options);
+        let expected = calc_expected_size(self.options)
+            .ok_or(PPMEncodeErrors::Static("overflow in image dimensions"))?;
 
         if expected != found {
             return Err(PPMEncodeErrors::TooShortInput(expected, found));
         }
+        let bit_type = self.options.depth().bit_type();
+
+        if !matches!(bit_type, BitType::U8 | BitType::U16) {
+            return Err(PPMEncodeErrors::Static(
+                "PPM can only store 8 bit and 16 bit images"
+            ));
+        }
         let mut stream = ZWriter::new(out);
         stream.reserve(expected + 37)?; // 37 arbitrary number, chosen by divinity, guaranteed to work
 
         self.encode_headers(&mut stream)?;
 
-        match self.options.depth().bit_type() {
+        match bit_type {
             BitType::U8 => stream.write_all(self.data)?,
             BitType::U16 => {
                 // chunk in two and write to stream
@@ -216,6 +224,10 @@ pub fn max_out_size(options: &EncoderOptions) -> usize {
         .unwrap()
 }
 
-fn calc_expected_size(options: EncoderOptions) -> usize {
-    max_out_size(&options).checked_sub(PPM_HEADER_SIZE).unwrap()
+fn calc_expected_size(options: EncoderOptions) -> Option<usize> {
+    options
+        .width()
+        .checked_mul(options.depth().size_of())?
+        .checked_mul(options.height())?
+        .checked_mul(options.colorspace().num_components())
 }
diff --git a/crates/zune-qoi/src/encoder.rs b/crates/zune-qoi/src/encoder.rs
index 9ec78b7..8594c03 100644
--- a/crates/zune-qoi/src/encoder.rs
+++ b/crates/zune-qoi/src/encoder.rs
@@ -75,9 +75,12 @@ impl<'a> QoiEncoder<'a> {
     fn encode_headers<T: ZByteWriterTrait>(
         &self, writer: &mut ZWriter<T>
     ) -> Result<(), QoiEncodeErrors> {
-        let expected_len = self.options.width()
-            * self.options.height()
-            * self.options.colorspace().num_components();
+        let expected_len = self
+            .options
+            .width()
+            .checked_mul(self.options.height())
+            .and_then(|x| x.checked_mul(self.options.colorspace().num_components()))
+            .ok_or(QoiEncodeErrors::Generic("Overflow in image dimensions"))?;
 
         if self.pixel_data.len() != expected_len {
             return Err(QoiEncodeErrors::Generic(
-- 
2.43.0


From 92ce744ee88df10eb28642fc5fde5a94bbccc2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 42/61] fix: Channel: keep allocation, layout and capacity in
 step

---
 crates/zune-image/src/channel.rs | 34 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index 8ac3b84..d89044d 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -19,7 +19,7 @@
 //! as separate bit depths.
 //! All are seen as u8 to it with the only difference being the latter is twice as big as the former.
 //!
-use std::alloc::{alloc_zeroed, dealloc, realloc, Layout};
+use std::alloc::{alloc_zeroed, dealloc, handle_alloc_error, realloc, Layout};
 use std::any::TypeId;
 use std::fmt::{Debug, Formatter};
 use std::mem::size_of;
@@ -208,29 +208,40 @@ impl Channel {
     /// It is not unsafe to call this, it's just left as unsafe
     /// to remind one to be careful of what they are doing
     unsafe fn alloc(size: usize) -> (*mut u8, Layout) {
-        let layout = Layout::from_size_align(size, MIN_ALIGNMENT).unwrap();
+        // zero sized allocations are undefined behaviour, hence always ask for a byte
+        let layout = Layout::from_size_align(size.max(1), MIN_ALIGNMENT).unwrap();
         // Safety
         //  alloc zeroed == alloc + std::mem::zeroed()
         // and we are bound by the zeroed trait, hence we are sure that
         // for whatever type we are going to allocate for,
         // it can be represented with a bit-representation of zero.
-        (alloc_zeroed(layout), layout)
+        let ptr = alloc_zeroed(layout);
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
+        (ptr, layout)
     }
     /// Reallocate the pointer in place increasing
     /// it's capacity
     pub unsafe fn realloc(&mut self, new_size: usize) {
-        self.ptr = realloc(self.ptr, self.layout, new_size);
+        let layout = Layout::from_size_align(new_size.max(1), MIN_ALIGNMENT).unwrap();
+
+        let ptr = realloc(self.ptr, self.layout, layout.size());
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
+        self.ptr = ptr;
+        // later calls to realloc and dealloc must use the layout of this block
+        self.layout = layout;
         // set capacity to be new size
         self.capacity = new_size;
+        self.length = self.length.min(new_size);
     }
     /// Deallocate storage allocated for this channel
     unsafe fn dealloc(&mut self) {
-        let layout = Layout::from_size_align(self.capacity, MIN_ALIGNMENT).unwrap();
-
         // safety
-        // - The same layout alignment we used for alloc is the same we are using for
-        //  dealloc
-        dealloc(self.ptr, layout);
+        // - The layout is the one the block was allocated with
+        dealloc(self.ptr, self.layout);
     }
 
     /// Create a new channel
@@ -512,8 +523,9 @@ impl Channel {
         if !self.has_capacity(size) {
             unsafe {
                 // extend
-                // use 3/2 formula
-                self.realloc(self.capacity.saturating_mul(size.saturating_mul(3)) / 2);
+                // use 3/2 formula, but always grow enough to fit the element
+                let needed = self.length.saturating_add(size);
+                self.realloc(needed.max(self.capacity.saturating_mul(3) / 2));
             }
         }
         // safety:
-- 
2.43.0


From 983129f0e3edb47a4761ce891868f4aa668fe4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 43/61] fix: Rotate and AffineTransform: channel lengths,
 dimensions and half turns

---
 crates/zune-imageprocs/src/affine.rs |  3 ++-
 crates/zune-imageprocs/src/rotate.rs | 38 ++++++++--------------------
 2 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 7dcb7b3..0f18fc4 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -136,6 +136,7 @@ impl OperationsTrait for AffineTransform {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let (w, h) = image.dimensions();
         let depth = image.depth().bit_type();
+        let sample_size = image.depth().size_of();
         let (new_w, new_h) = get_affine_output_dimensions(w, h, self);
 
         // Get inverse transform for reverse mapping
@@ -147,7 +148,7 @@ impl OperationsTrait for AffineTransform {
             } // Degenerate transform
         };
         let affine_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
-            let mut new_channel = Channel::new_with_bit_type(new_w * new_h, depth);
+            let mut new_channel = Channel::new_with_bit_type(new_w * new_h * sample_size, depth);
 
             match depth {
                 BitType::U8 => affine_transform_channel::<u8>(
diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index bed172d..82f411a 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -62,6 +62,7 @@ impl OperationsTrait for Rotate {
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let im_type = image.depth().bit_type();
+        let sample_size = image.depth().size_of();
 
         let (width, height) = image.dimensions();
 
@@ -70,8 +71,10 @@ impl OperationsTrait for Rotate {
         let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
-            let mut new_channel =
-                Channel::new_with_length_and_type(new_width * new_height, channel.type_id());
+            let mut new_channel = Channel::new_with_length_and_type(
+                new_width * new_height * sample_size,
+                channel.type_id()
+            );
 
             match im_type {
                 BitType::U8 => {
@@ -126,19 +129,7 @@ impl OperationsTrait for Rotate {
 
 fn change_image_dims(image: &mut Image, angle: f32) {
     let (ow, oh) = image.dimensions();
-    if (angle - 90.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    if (angle - 270.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    // For arbitrary angles, calculate bounding box
-    let angle_rad = angle.to_radians();
-    let cos_a = angle_rad.cos().abs();
-    let sin_a = angle_rad.sin().abs();
-
-    let new_width = (ow as f32 * cos_a + oh as f32 * sin_a).ceil() as usize;
-    let new_height = (ow as f32 * sin_a + oh as f32 * cos_a).ceil() as usize;
+    let (new_width, new_height) = get_rotated_dimensions(ow, oh, angle);
 
     image.set_dimensions(new_width, new_height)
 }
@@ -152,7 +143,7 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
-        rotate_180(out_image, width);
+        rotate_180(out_image);
     } else if (angle - 90.0).abs() < f32::EPSILON {
         rotate_90(in_image, out_image, width, height);
     } else if (angle - 270.0).abs() < f32::EPSILON {
@@ -164,18 +155,9 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     }
 }
 
-fn rotate_180<T: Copy>(in_out_image: &mut [T], width: usize) {
-    let half = in_out_image.len() / 2;
-    let (top, bottom) = in_out_image.split_at_mut(half);
-
-    for (top_chunk, bottom_chunk) in top
-        .chunks_exact_mut(width)
-        .zip(bottom.chunks_exact_mut(width).rev())
-    {
-        for (a, b) in top_chunk.iter_mut().zip(bottom_chunk.iter_mut()) {
-            core::mem::swap(a, b);
-        }
-    }
+fn rotate_180<T: Copy>(in_out_image: &mut [T]) {
+    // reversing all the pixels reverses both the rows and the pixels of each row
+    in_out_image.reverse();
 }
 
 fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
-- 
2.43.0


From 73b458c8a37049267c8bd86456e9d5c24d0c9800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 44/61] fix: ColorspaceConv: move alpha of ARGB images to the
 end

convert_rgba_to_argb_or_vice_versa popped the last channel and put it
first in both directions, so converting ARGB gave [B,A,R,G] labelled as
RGBA, and everything derived from it was wrong too.
---
 .../core_filters/colorspace/conversion_functions.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
index 4e58ae0..9c71f52 100644
--- a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
+++ b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
@@ -415,11 +415,18 @@ pub fn convert_rgba_to_argb_or_vice_versa(image: &mut Image) -> Result<(), Image
         image.colorspace(),
         ColorSpace::RGBA | ColorSpace::ARGB
     ));
+    let alpha_first = image.colorspace() == ColorSpace::ARGB;
     // swap
     for frame in image.frames_mut() {
-        // switch the channels now
-        let a_channel = frame.channels_vec().pop().unwrap();
-        frame.channels_vec().insert(0, a_channel);
+        // move alpha to the other end
+        let channels = frame.channels_vec();
+        if alpha_first {
+            let a_channel = channels.remove(0);
+            channels.push(a_channel);
+        } else {
+            let a_channel = channels.pop().unwrap();
+            channels.insert(0, a_channel);
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 11176d6b4e22e895fef16a6038a902d787630cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:24 +0000
Subject: [PATCH 45/61] fix: Transpose: images narrower than eight pixels

The scalar transpose started its remainder loops one row early and
underflowed for widths and heights below eight, so that small images
panicked or came out empty.
---
 crates/zune-imageprocs/src/transpose/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/transpose/scalar.rs b/crates/zune-imageprocs/src/transpose/scalar.rs
index b219165..0e43f3d 100644
--- a/crates/zune-imageprocs/src/transpose/scalar.rs
+++ b/crates/zune-imageprocs/src/transpose/scalar.rs
@@ -63,8 +63,8 @@ pub fn transpose_scalar<T: Copy + Default>(
             }
         }
     }
-    let rem_w = width - (width & 7) - 1;
-    let rem_h = height - (height & 7) - 1;
+    let rem_w = width - (width & 7);
+    let rem_h = height - (height & 7);
 
     for i in rem_h..height {
         for j in 0..width {
-- 
2.43.0


From 99189ddfd76816b0f70931b9a23ce812ccf82834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:24 +0000
Subject: [PATCH 46/61] fix: Rotate: full turns and negative right angles

Rotating by 0 or 360 degrees went through the resampler, which drops the
last row and column, and -90, -180 and -270 degrees were not recognised
as right angles.
---
 crates/zune-imageprocs/src/rotate.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index 82f411a..c3d9b06 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -23,7 +23,7 @@ use crate::traits::NumOps;
 use crate::utils::execute_on;
 
 pub fn get_rotated_dimensions(width: usize, height: usize, angle: f32) -> (usize, usize) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
     // Handle special cases for 90-degree rotations
     if (angle - 90.0).abs() < f32::EPSILON || (angle - 270.0).abs() < f32::EPSILON {
@@ -138,9 +138,12 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
 ) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
-    if (angle - 180.0).abs() < f32::EPSILON {
+    if angle.abs() < f32::EPSILON {
+        // nothing to rotate
+        out_image.copy_from_slice(in_image);
+    } else if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
         rotate_180(out_image);
-- 
2.43.0


From a250c8787103b16d67547ecc98e69a994a8f40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 47/61] fix: deinterleave: SSE4.1 kernel for four u8 channels

The loads advanced by half a register, so every block of sixteen pixels
came out with repeated and missing samples on machines without AVX2.
---
 crates/zune-image/src/deinterleave/sse41.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/deinterleave/sse41.rs b/crates/zune-image/src/deinterleave/sse41.rs
index e60eaf7..d01ac0c 100644
--- a/crates/zune-image/src/deinterleave/sse41.rs
+++ b/crates/zune-image/src/deinterleave/sse41.rs
@@ -133,9 +133,9 @@ pub unsafe fn de_interleave_four_channels_sse41(
         // We load 64 bytes to ensure that when we write, we do a write of 16 which
         // fits nicely into a sse register.
         let t1 = _mm_loadu_si128(source_chunk[00..].as_ptr().cast());
-        let t2 = _mm_loadu_si128(source_chunk[08..].as_ptr().cast());
-        let t3 = _mm_loadu_si128(source_chunk[16..].as_ptr().cast());
-        let t4 = _mm_loadu_si128(source_chunk[24..].as_ptr().cast());
+        let t2 = _mm_loadu_si128(source_chunk[16..].as_ptr().cast());
+        let t3 = _mm_loadu_si128(source_chunk[32..].as_ptr().cast());
+        let t4 = _mm_loadu_si128(source_chunk[48..].as_ptr().cast());
 
         // convert data into
         // rrrr,gggg,bbbb,aaaa
-- 
2.43.0


From 5383267be6bb03385a3620df8a38f63940c0466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 48/61] fix: BilateralFilter: centre pixel of the window,
 weights by position, small diameters

---
 crates/zune-imageprocs/src/bilateral_filter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/bilateral_filter.rs b/crates/zune-imageprocs/src/bilateral_filter.rs
index 6e7c209..766a500 100644
--- a/crates/zune-imageprocs/src/bilateral_filter.rs
+++ b/crates/zune-imageprocs/src/bilateral_filter.rs
@@ -150,7 +150,9 @@ fn init_bilateral(
     let radius: i32 = if d <= 0 { (sigma_space * 1.5).round() as _ } else { d / 2 };
 
     let mut color_weight = vec![0.0_f64; cn * color_range];
-    let mut space_weight = vec![0.0_f64; (d * d).unsigned_abs() as usize];
+    // one weight per pixel of the window, those outside the circle stay zero
+    let side = 2 * radius + 1;
+    let mut space_weight = vec![0.0_f64; (side * side).unsigned_abs() as usize];
 
     // initialize color-related bilateral filter coeffs
     for (i, item) in color_weight.iter_mut().enumerate().take(color_range) {
@@ -162,10 +164,9 @@ fn init_bilateral(
     for i in -radius..=radius {
         for j in -radius..=radius {
             let r = f64::from((i * i) + (j * j)).sqrt();
-            if r > f64::from(radius) {
-                continue;
+            if r <= f64::from(radius) {
+                space_weight[makx] = (r * r * gauss_space_coeff).exp();
             }
-            space_weight[makx] = (r * r * gauss_space_coeff).exp();
             makx += 1;
         }
     }
@@ -198,7 +199,7 @@ fn bilateral_filter_int<T>(
     // This impl matches opencv bilateral_filter's inner loop, with less pointer chasing as
     // the spatial function sends the right thing to us
     let bilateral_func = |area: &[T]| -> T {
-        let mid = (area.len() + 1) / 2;
+        let mid = area.len() / 2;
 
         let mut sum = 0.0;
         let mut wsum = 0.0;
-- 
2.43.0


From 7426017f87180c210ac0e89a88b394957af98933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 49/61] fix: PFM decoder: images with an odd number of rows

---
 crates/zune-ppm/src/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 67822fc..60bec12 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -601,17 +601,17 @@ where
                 };
 
                 // pfm uses bottom-top orientation, so let's fix it
-                let length = result.len() / 2;
+                let single_stride = self.width * self.colorspace.num_components();
+                // the middle row of an odd number of rows stays where it is
+                let length = (self.height / 2) * single_stride;
 
                 let (in_img_top, in_img_bottom) = result.split_at_mut(length);
 
-                let single_stride = self.width * self.colorspace.num_components();
                 let mut stride = vec![0.; single_stride];
 
                 for (in_dim, out_dim) in in_img_top
                     .chunks_exact_mut(single_stride)
-                    .rev()
-                    .zip(in_img_bottom.chunks_exact_mut(single_stride))
+                    .zip(in_img_bottom.rchunks_exact_mut(single_stride))
                 {
                     // copy in_top to temp vec
                     stride.copy_from_slice(in_dim);
-- 
2.43.0


From 36b1519b505609fe59164602158f844133580c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 50/61] fix: Sobel, Scharr and Prewitt: horizontal gradient
 uses the bottom right pixel

---
 crates/zune-imageprocs/src/prewitt.rs | 4 ++--
 crates/zune-imageprocs/src/scharr.rs  | 4 ++--
 crates/zune-imageprocs/src/sobel.rs   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 4d07d9a..04d20d6 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -27,7 +27,7 @@ fn prewitt_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * 1.) + (f32::from(c[2]) * -1.);
     sum_a += (f32::from(c[3]) * 1.) + (f32::from(c[5]) * -1.);
-    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[7]) * -1.);
+    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[8]) * -1.);
 
     // matrix
     //  1,  1,  1,
@@ -61,7 +61,7 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * 1) + (i32::from(c[2]) * -1);
     sum_a += (i32::from(c[3]) * 1) + (i32::from(c[5]) * -1);
-    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[7]) * -1);
+    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[8]) * -1);
 
     // matrix
     //  1,  1,  1,
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 1e762e5..6dfe2f9 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -158,7 +158,7 @@ fn scharr_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -03.) + (f32::from(c[2]) * 03.);
     sum_a += (f32::from(c[3]) * -10.) + (f32::from(c[5]) * 10.);
-    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[7]) * 30.);
+    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[8]) * 03.);
 
     // matrix
     // -03,-10,-03,
@@ -192,7 +192,7 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -03) + (i32::from(c[2]) * 03);
     sum_a += (i32::from(c[3]) * -10) + (i32::from(c[5]) * 10);
-    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[7]) * 03);
+    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[8]) * 03);
 
     // Gy matrix
     // -3,-10,-3,
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 663c5fe..1fbf1a5 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -112,7 +112,7 @@ fn sobel_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -1.) + (f32::from(c[2]) * 1.);
     sum_a += (f32::from(c[3]) * -2.) + (f32::from(c[5]) * 2.);
-    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[7]) * 1.);
+    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[8]) * 1.);
 
     // matrix
     // -1,-2,-1,
@@ -146,7 +146,7 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -1) + (i32::from(c[2]) * 1);
     sum_a += (i32::from(c[3]) * -2) + (i32::from(c[5]) * 2);
-    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[7]) * 1);
+    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[8]) * 1);
 
     // matrix
     // -1,-2,-1,
-- 
2.43.0


From 97141d30cb246e89bbde0879252aff44e80fa1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 51/61] fix: Sobel, Scharr and Prewitt: overflow for 16 bit
 images

---
 crates/zune-imageprocs/src/prewitt.rs | 5 ++++-
 crates/zune-imageprocs/src/scharr.rs  | 5 ++++-
 crates/zune-imageprocs/src/sobel.rs   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 04d20d6..eee075a 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -72,7 +72,10 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * 1) + (i32::from(c[6]) * -1);
     sum_b += (i32::from(c[7]) * -1) + (i32::from(c[8]) * -1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // the squares do not fit into an i32 for 16 bit samples
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the prewitt filter for a float channel
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 6dfe2f9..6334e88 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -203,7 +203,10 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -03) + (i32::from(c[6]) * 03);
     sum_b += (i32::from(c[7])  * 10) + (i32::from(c[8]) * 03);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // the squares do not fit into an i32 for 16 bit samples
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the scharr filter for a float channel
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 1fbf1a5..59c1d49 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -157,7 +157,10 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -1) + (i32::from(c[6]) * 1);
     sum_b += (i32::from(c[7]) * 2) + (i32::from(c[8]) * 1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // the squares do not fit into an i32 for 16 bit samples
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the sobel filter for a float channel
-- 
2.43.0


From 89a234040530ea2d50c7b64c5b1bd55f70b05ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 52/61] fix: SpatialOps: overflow of the contrast of bright
 pixels

---
 crates/zune-imageprocs/src/spatial_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/spatial_ops.rs b/crates/zune-imageprocs/src/spatial_ops.rs
index 687fdc3..15621ca 100644
--- a/crates/zune-imageprocs/src/spatial_ops.rs
+++ b/crates/zune-imageprocs/src/spatial_ops.rs
@@ -73,7 +73,7 @@ fn find_contrast<
         }
     }
     let num = maximum - minimum;
-    let div = (maximum + minimum).saturating_add(T::one()); // do not allow division by zero
+    let div = maximum.saturating_add(minimum).saturating_add(T::one()); // do not allow division by zero
 
     num / div
 }
-- 
2.43.0


From 5d2efb0aa7b4eaa817424144eeefe86cb6ff9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 53/61] fix: ThreshToZero keeps the sample above the threshold
 instead of replacing it by the threshold

---
 crates/zune-imageprocs/src/threshold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/threshold.rs b/crates/zune-imageprocs/src/threshold.rs
index 5e7dd13..177abe1 100644
--- a/crates/zune-imageprocs/src/threshold.rs
+++ b/crates/zune-imageprocs/src/threshold.rs
@@ -146,7 +146,7 @@ pub fn threshold<T>(in_channel: &mut [T], threshold: T, method: ThresholdMethod)
             {
                 for x in in_channel.iter_mut()
                 {
-                    *x = if *x > threshold { threshold } else { T::min_val() }
+                    *x = if *x > threshold { *x } else { T::min_val() }
                 }
             }
     }
-- 
2.43.0


From 2edb5d536684278d02f086246d91825831dae54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 54/61] fix: premultiply: division by 256, not 255, of the
 corrected product (opaque white became black)

---
 crates/zune-imageprocs/src/premul_alpha.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/premul_alpha.rs b/crates/zune-imageprocs/src/premul_alpha.rs
index 4881b49..fdf0c64 100644
--- a/crates/zune-imageprocs/src/premul_alpha.rs
+++ b/crates/zune-imageprocs/src/premul_alpha.rs
@@ -238,12 +238,10 @@ pub fn create_unpremul_table_u16() -> Vec<u128> {
 /// Items in input are modified in place.
 #[allow(clippy::cast_possible_truncation)]
 pub fn premultiply_u8(input: &mut [u8], alpha: &[u8]) {
-    const MAX_VALUE: u16 = 255;
-
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u16::from(*al) * u16::from(*color)) + 0x80;
 
-        *color = ((temp + (temp >> 8)) / MAX_VALUE) as u8;
+        *color = ((temp + (temp >> 8)) >> 8) as u8;
     });
 }
 
@@ -261,7 +259,7 @@ pub fn premultiply_u16(input: &mut [u16], alpha: &[u16]) {
 
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u32::from(*al) * u32::from(*color)) + ((MAX_VALUE + 1) / 2);
-        *color = ((temp + (temp >> 16)) / MAX_VALUE) as u16;
+        *color = ((temp + (temp >> 16)) >> 16) as u16;
     });
 }
 
-- 
2.43.0


From 7448aa153b2dce14486a17ae09235faf775a3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 55/61] fix: stretch_contrast_f32 measures from the lower bound

---
 crates/zune-imageprocs/src/stretch_contrast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/stretch_contrast.rs b/crates/zune-imageprocs/src/stretch_contrast.rs
index 69fd8ce..a09a4e9 100644
--- a/crates/zune-imageprocs/src/stretch_contrast.rs
+++ b/crates/zune-imageprocs/src/stretch_contrast.rs
@@ -144,7 +144,7 @@ pub fn stretch_contrast_f32(image: &mut [f32], lower: f32, upper: f32) -> Result
         } else if *pixel <= lower {
             *pixel = f32::min_val();
         } else {
-            *pixel = (f32::max_val() - *pixel) * inv_range;
+            *pixel = (*pixel - lower) * inv_range;
         }
     }
 
-- 
2.43.0


From 3827845fe78972c4d115f9c33b90ece10fc4831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 56/61] fix: bmp: the compression field exists in headers of 40
 bytes or more, not in files whose pixels start after byte 40

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 50a7e33..85d39c2 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -319,7 +319,7 @@ where
                 height = self.bytes.get_u32_le_err()?;
                 _planes = self.bytes.get_u16_le_err()?;
                 bpp = self.bytes.get_u16_le_err()?;
-                compression = if hsize >= 40 {
+                compression = if ihsize >= 40 {
                     match BmpCompression::from_u32(self.bytes.get_u32_le_err()?) {
                         Some(c) => c,
                         None => {
-- 
2.43.0


From df169c7af73902858f0e01007d47bb038839ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 57/61] fix: png: filter methods other than 0 are unknown (row
 filter types were accepted)

---
 crates/zune-png/src/headers/readers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 6236a0c..1e57b90 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -86,13 +86,13 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         let filter_method = self.stream.read_u8();
 
-        if let Some(method) = FilterMethod::from_int(filter_method) {
-            self.png_info.filter_method = method;
-        } else {
+        // Method 0 (adaptive filtering, one filter type per scanline) is the only one defined
+        if filter_method != 0 {
             return Err(PngDecodeErrors::Generic(format!(
                 "Unknown filter method {filter_method}"
             )));
         }
+        self.png_info.filter_method = FilterMethod::None;
 
         let interlace_method = self.stream.read_u8();
 
-- 
2.43.0


From 80b7958a2f4858ce064830ee62edc4aaf643dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 58/61] fix: zune-image: vectorised grayscale swapped green and
 blue and misplaced the remainder

---
 .../src/core_filters/colorspace/grayscale/avx2.rs        | 9 ++++-----
 .../src/core_filters/colorspace/grayscale/sse41.rs       | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
index b05e972..e030ce6 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
@@ -29,8 +29,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // Load to memory
@@ -77,11 +77,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
         // do the remainder
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
index c7c76b7..616d83d 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
@@ -34,8 +34,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // PS I'm not sure if this is valid, we chunked 8 values
@@ -75,11 +75,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
         // assume r ,g and b are equal lengths.
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
-- 
2.43.0


From bf133013a7c13ab023d9ee9557c78a314f73152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 59/61] fix: PSD color mode 7 is multichannel and 8 is duotone

---
 crates/zune-psd/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-psd/src/constants.rs b/crates/zune-psd/src/constants.rs
index baedf8e..5e95def 100644
--- a/crates/zune-psd/src/constants.rs
+++ b/crates/zune-psd/src/constants.rs
@@ -25,7 +25,7 @@ pub enum ColorModes {
 impl ColorModes {
     pub fn from_int(int: u16) -> Option<ColorModes> {
         use crate::constants::ColorModes::{
-            Bitmap, DuoTone, Grayscale, IndexedColor, LabColor, CYMK, RGB
+            Bitmap, DuoTone, Grayscale, IndexedColor, LabColor, MultiChannel, CYMK, RGB
         };
 
         match int {
@@ -34,7 +34,8 @@ impl ColorModes {
             2 => Some(IndexedColor),
             3 => Some(RGB),
             4 => Some(CYMK),
-            7 => Some(DuoTone),
+            7 => Some(MultiChannel),
+            8 => Some(DuoTone),
             9 => Some(LabColor),
             _ => None
         }
-- 
2.43.0


From f73d6eba7394a4ed25ac2b3b7b1c84a58979bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 60/61] fix: BMP files that end less than 12 bytes after a 40
 byte header were refused

---
 crates/zune-bmp/src/decoder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 85d39c2..808c14b 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -344,16 +344,22 @@ where
                     trace!("Color used : {}", color_used);
                     trace!("Important Colors: {}", important_colors);
 
-                    self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    // the masks are part of larger headers and follow a 40 byte one
+                    // if it has any, a small file may end before
+                    if ihsize > 40 || compression == BmpCompression::BITFIELDS {
+                        self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    }
 
                     let mut colorspace_type = 0;
 
-                    if ihsize > 40 {
+                    if ihsize > 52 {
                         // alpha mask
                         self.rgb_bitfields[3] = self.bytes.get_u32_le_err()?;
+                    }
 
+                    if ihsize > 64 {
                         colorspace_type = self.bytes.get_u32_le_err()?;
 
                         const BMP_DENOM: f64 = 0x40000000_u32 as f64;
-- 
2.43.0


From a7f49473b2bca9c1ffb78c0555d4750911a5998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 61/61] fix: HDR encoder wrote header lines in a random order

---
 crates/zune-hdr/src/encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index fda65da..94880cc 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -156,7 +156,11 @@ impl<'a> HdrEncoder<'a> {
             writer.write_all(b"#?RADIANCE\n")?;
             writer.write_all(b"SOFTWARE=zune-hdr\n")?;
             if let Some(headers) = self.headers {
-                for (k, v) in headers {
+                // the map iterates in a random order, keep the output deterministic
+                let mut sorted: Vec<_> = headers.iter().collect();
+                sorted.sort();
+
+                for (k, v) in sorted {
                     writer.write_all(format!("{}={}\n", k, v).as_bytes())?;
                 }
             }
-- 
2.43.0

