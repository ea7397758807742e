From c2f7ec1599c100e580663b6741e19124bdb67968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 01/13] fix: interleave the components when no colour transform
 is applied

With ColorTransform::None each output row was filled component after
component instead of pixel by pixel, and a line buffer longer than the row
(subsampled components, odd width) made it panic.
---
 src/decoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..12554b5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1474,11 +1474,9 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
-
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
+    for (x, pixel) in output.chunks_exact_mut(data.len()).enumerate() {
+        for (d, component) in pixel.iter_mut().zip(data) {
+            *d = component[x];
         }
     }
 }
-- 
2.43.0


From 1d812aab7e6792e04cb639636a4d2bee7483a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 02/13] fix: count the blocks of non-interleaved scans without
 overflow

The loop bounds of a scan were cut off at the image size by comparing
mcu * 8 in u16, which overflows for dimensions above 65528, and which
reads too many blocks from a non-interleaved scan of a component with
sampling factor 2 out of 4.
---
 src/decoder.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 12554b5..bb5f6bd 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -901,22 +901,29 @@ impl<R: Read> Decoder<R> {
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
+            // Section A.2.2 and A.1.1: just the blocks which cover the component's own samples.
+            let blocks = |size: u16, factor: u8, max_factor: Option<u8>| {
+                let samples = size as u32 * factor as u32;
+                let per_block = max_factor.unwrap_or(1) as u32 * 8;
+                ((samples + per_block - 1) / per_block) as u16
+            };
+            let all = &frame.components;
             (
-                components[0].block_size.width,
-                components[0].block_size.height,
+                blocks(
+                    frame.image_size.width,
+                    components[0].horizontal_sampling_factor,
+                    all.iter().map(|c| c.horizontal_sampling_factor).max(),
+                ),
+                blocks(
+                    frame.image_size.height,
+                    components[0].vertical_sampling_factor,
+                    all.iter().map(|c| c.vertical_sampling_factor).max(),
+                ),
             )
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
-                break;
-            }
-
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
-                    break;
-                }
-
                 if self.restart_interval > 0 {
                     if mcus_left_until_restart == 0 {
                         match huffman.take_marker(&mut self.reader)? {
@@ -1022,7 +1029,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
-- 
2.43.0


From 19f20a4e2d0759a34da5746cf3045f1c8108f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 03/13] fix: apply the buffer size limit to the bytes of 16 bit
 images

The limit was compared with the number of samples, so that a lossless
image of more than 8 bits could return twice the allowed size.
---
 src/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index bb5f6bd..b0783fd 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -633,6 +633,12 @@ impl<R: Read> Decoder<R> {
             .len()
             .checked_mul(frame.output_size.width.into())
             .and_then(|m| m.checked_mul(frame.output_size.height.into()))
+            .and_then(|m| {
+                // Lossless samples of more than 8 bits are returned as 16 bits.
+                let is_16_bit =
+                    frame.coding_process == CodingProcess::Lossless && frame.precision > 8;
+                m.checked_mul(if is_16_bit { 2 } else { 1 })
+            })
             .map_or(true, |m| self.decoding_buffer_size_limit < m)
         {
             return Err(Error::Format(
-- 
2.43.0


From 50ce49a4a9389223371f86b3f00e6705ebeee5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 04/13] fix: store lossless scans at the components they belong
 to

The planes of a scan were stored by their position in the scan, so that a
non-interleaved image of several components failed to decode.
---
 src/decoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b0783fd..0f24f65 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -414,9 +414,10 @@ impl<R: Read> Decoder<R> {
                     if frame.coding_process == CodingProcess::Lossless {
                         let (marker, data) = self.decode_scan_lossless(&frame, &scan)?;
 
-                        for (i, plane) in data
-                            .into_iter()
-                            .enumerate()
+                        for (&i, plane) in scan
+                            .component_indices
+                            .iter()
+                            .zip(data)
                             .filter(|(_, plane)| !plane.is_empty())
                         {
                             planes_u16[i] = plane;
-- 
2.43.0


From db66bfcfe62e5e546d70b3a67f7c2cc96f35f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 05/13] fix: keep the size of lossless images in scale()

Lossless images are always decoded at their full size, but scale() and
info() announced a scaled one.
---
 src/decoder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0f24f65..ec8b67e 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -278,13 +278,18 @@ impl<R: Read> Decoder<R> {
     pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> Result<(u16, u16)> {
         self.read_info()?;
         let frame = self.frame.as_mut().unwrap();
-        let idct_size = crate::idct::choose_idct_size(
-            frame.image_size,
-            Dimensions {
-                width: requested_width,
-                height: requested_height,
-            },
-        );
+        let idct_size = if frame.coding_process == CodingProcess::Lossless {
+            // There is no transform which could scale a lossless image.
+            8
+        } else {
+            crate::idct::choose_idct_size(
+                frame.image_size,
+                Dimensions {
+                    width: requested_width,
+                    height: requested_height,
+                },
+            )
+        };
         frame.update_idct_size(idct_size)?;
         Ok((frame.output_size.width, frame.output_size.height))
     }
-- 
2.43.0


From 797297fdba77f758c9c50a25e2f49dc906cc4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 06/13] fix: return one byte per sample for lossless precisions
 below 8

info() announces L8 for 2 to 8 bits, but the samples were returned as
16 bits unless the precision was exactly 8.
---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..3583d24 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -250,7 +250,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From 1b9ce22b082eb5e035e3261491536f5510df7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 07/13] fix: undo the lossless point transform after prediction

The prediction of a sample was computed from neighbours which had already
been scaled back by the point transform.
---
 src/decoder/lossless.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 3583d24..91a6720 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -111,7 +111,6 @@ impl<R: Read> Decoder<R> {
                 let diff = differences[i][0];
                 let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -120,7 +119,6 @@ impl<R: Read> Decoder<R> {
                     let diff = differences[i][mcu_y * width];
                     let prediction = previous as i32;
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -131,7 +129,6 @@ impl<R: Read> Decoder<R> {
                         let diff = differences[i][mcu_y * width + mcu_x];
                         let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -170,12 +167,17 @@ impl<R: Read> Decoder<R> {
                                 && mcus_left_until_restart == self.restart_interval - 1,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        // Section H.1.2.1: the prediction works on samples reduced by the point transform.
+        for result in results.iter_mut().flatten() {
+            *result <<= scan.point_transform;
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = self.read_marker().ok();
-- 
2.43.0


From bcc915a5f0561721ef4b709385498a4e85c6b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 08/13] fix: do not underflow if the point transform is not
 below the precision

Predictor 1 computed the initial prediction without the check which the
other predictors have.
---
 src/decoder/lossless.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 91a6720..0c8c5f0 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -109,7 +109,7 @@ impl<R: Read> Decoder<R> {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
                 let diff = differences[i][0];
-                let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
+                let prediction = initial_prediction(frame.precision, scan.point_transform);
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                 results[i][0] = result;
 
@@ -186,6 +186,15 @@ impl<R: Read> Decoder<R> {
     }
 }
 
+/// H.1.2.1, for the first sample of the scan or of a restart interval
+fn initial_prediction(input_precision: u8, point_transform: u8) -> i32 {
+    if input_precision > 1 + point_transform {
+        1 << (input_precision - point_transform - 1)
+    } else {
+        0
+    }
+}
+
 /// H.1.2.1
 #[allow(clippy::too_many_arguments)]
 fn predict(
@@ -201,11 +210,7 @@ fn predict(
 ) -> i32 {
     if (ix == 0 && iy == 0) || restart {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
-            1 << (input_precision - point_transform - 1)
-        } else {
-            0
-        }
+        initial_prediction(input_precision, point_transform)
     } else if iy == 0 {
         // rest of first line
         ra
-- 
2.43.0


From 8aa326be821190a59a4250e31edb7dd9f4136149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 09/13] fix: restart the lossless prediction at each restart
 interval

The prediction of the first line after a restart marker used the samples
before it, and whether a restart had happened was decided from the state
at the end of the scan.
---
 src/decoder/lossless.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 0c8c5f0..40235c9 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -105,6 +105,11 @@ impl<R: Read> Decoder<R> {
             }
         }
 
+        // Section H.1.1: restart intervals begin at the start of a line.
+        let restart_interval = self.restart_interval as usize;
+        let is_restart_line =
+            |mcu_y: usize| restart_interval > 0 && (mcu_y * width) % restart_interval == 0;
+
         if scan.predictor_selection == Predictor::Ra {
             for (i, _component) in components.iter().enumerate() {
                 // calculate the top left pixel
@@ -117,7 +122,11 @@ impl<R: Read> Decoder<R> {
                 let mut previous = result;
                 for mcu_y in 1..height {
                     let diff = differences[i][mcu_y * width];
-                    let prediction = previous as i32;
+                    let prediction = if is_restart_line(mcu_y) {
+                        initial_prediction(frame.precision, scan.point_transform)
+                    } else {
+                        previous as i32
+                    };
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                     results[i][mcu_y * width] = result;
                     previous = result;
@@ -162,9 +171,8 @@ impl<R: Read> Decoder<R> {
                             scan.point_transform,
                             frame.precision,
                             mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            // the first line of a restart interval is predicted like the first line
+                            if is_restart_line(mcu_y) { 0 } else { mcu_y },
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result;
@@ -206,9 +214,8 @@ fn predict(
     input_precision: u8,
     ix: usize,
     iy: usize,
-    restart: bool,
 ) -> i32 {
-    if (ix == 0 && iy == 0) || restart {
+    if ix == 0 && iy == 0 {
         // start of first line or restart
         initial_prediction(input_precision, point_transform)
     } else if iy == 0 {
-- 
2.43.0


From aa7e170198643e3b55bde63d5e41804449c4e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:31 +0000
Subject: [PATCH 10/13] fix: do not require a DC table for a refinement scan

---
 src/decoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index ec8b67e..1a30f10 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -835,7 +835,9 @@ impl<R: Read> Decoder<R> {
         }
 
         // Verify that all required huffman tables has been set.
+        // Section G.1.2.1: refining the DC coefficient needs no table.
         if scan.spectral_selection.start == 0
+            && scan.successive_approximation_high == 0
             && scan
                 .dc_table_indices
                 .iter()
-- 
2.43.0


From c92aa3c0f14d3eb9991d506b0c77cce59b1d62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 11/13] fix: return ICC profiles of 255 chunks

---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 1a30f10..502f916 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From 65199b8087511932e52cf8bd247a25f6fd271709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:04 +0000
Subject: [PATCH 12/13] fix: return reader errors that occur after a trailing
 restart marker

---
 src/decoder.rs          | 2 +-
 src/decoder/lossless.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 502f916..9b8ff51 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1083,7 +1083,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
 
         if finished.iter().any(|&c| c) {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 40235c9..c0d80bf 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -188,7 +188,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
         Ok((marker, results))
     }
-- 
2.43.0


From 6e4de4910a3fb06757415883f22c35cca1607baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:11 +0000
Subject: [PATCH 13/13] fix: start the lossless prediction from 1 if the point
 transform leaves one bit

---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index c0d80bf..800d299 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -196,7 +196,7 @@ impl<R: Read> Decoder<R> {
 
 /// H.1.2.1, for the first sample of the scan or of a restart interval
 fn initial_prediction(input_precision: u8, point_transform: u8) -> i32 {
-    if input_precision > 1 + point_transform {
+    if input_precision > point_transform {
         1 << (input_precision - point_transform - 1)
     } else {
         0
-- 
2.43.0

