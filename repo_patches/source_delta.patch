From 657b6d467a74a0d3658d2633d5aaf6372605db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 01/42] fix: do not extend a squeeze step into an empty
 neighbouring tile

The average channel of a squeeze step can end before the next output tile
(its size is half the size of the output), in which case extending the
average rectangle by one made it leave the buffer and the decoder panic.
---
 jxl/src/frame/modular/transforms/step.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index c1b76a4..20c0f33 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -172,10 +172,17 @@ impl SqueezeInfo {
         let next_avg_grid = if let Some(pos) = pos_next {
             let grid = buf_avg.get_grid_idx(output_grid_kind, pos);
             if grid == in_grid {
-                if vertical {
-                    avg_rect.size.1 += 1;
-                } else {
-                    avg_rect.size.0 += 1;
+                // The next tile of the (smaller) average channel can be empty even if the next
+                // tile of the output channel is not.
+                let (next_w, next_h) = buf_avg
+                    .get_grid_rect(frame_header, output_grid_kind, pos)
+                    .size;
+                if next_w > 0 && next_h > 0 {
+                    if vertical {
+                        avg_rect.size.1 += 1;
+                    } else {
+                        avg_rect.size.0 += 1;
+                    }
                 }
                 None
             } else {
-- 
2.43.0


From e9123c762b3a109922f7e57c43b1f03d3aebfdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 02/42] fix: clamp the sample of the new frame in Mul frame
 blending

---
 jxl/src/features/blending.rs      | 34 ++++++++++++++++++++++++++-----
 jxl/src/features/patches.rs       |  7 ++++++-
 jxl/src/render/stages/blending.rs |  2 +-
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/jxl/src/features/blending.rs b/jxl/src/features/blending.rs
index 5d432e9..9817f7b 100644
--- a/jxl/src/features/blending.rs
+++ b/jxl/src/features/blending.rs
@@ -151,10 +151,12 @@ simd_function!(
     }
 );
 
+// The sample of the top layer is the one that is clamped.
 simd_function!(
     mul,
     d: D,
-    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool) {
+    fn mul_impl(dst: &mut [f32], src: &[f32], xsize: usize, clamp: bool, order: BlendOrder) {
+        let fg_on_top = order == BlendOrder::Above;
         let lanes = D::F32Vec::LEN;
         let one = D::F32Vec::splat(d, 1.0);
         let zero = D::F32Vec::zero(d);
@@ -163,8 +165,10 @@ simd_function!(
         let maybe_clamp_vec = |v: D::F32Vec| if clamp { v.max(zero).min(one) } else { v };
         for k in 0..xsize.div_ceil(lanes) {
             let x = k * lanes;
-            let s = maybe_clamp_vec(load_vec(d, src, x));
-            store_vec(d, load_vec(d, dst, x) * s, dst, x);
+            let dst_v = load_vec(d, dst, x);
+            let src_v = load_vec(d, src, x);
+            let (top, bottom) = if fg_on_top { (src_v, dst_v) } else { (dst_v, src_v) };
+            store_vec(d, bottom * maybe_clamp_vec(top), dst, x);
         }
     }
 );
@@ -356,7 +360,10 @@ pub fn perform_blending(
                 }
             }
             PatchBlendMode::Mul => {
-                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp);
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Above);
+            }
+            PatchBlendMode::MulBelow => {
+                mul(ec_out, &fg[3 + i][..xsize], xsize, clamp, BlendOrder::Below);
             }
             PatchBlendMode::Replace => {
                 ec_out.copy_from_slice(&fg[3 + i][..xsize]);
@@ -458,7 +465,24 @@ pub fn perform_blending(
         }
         PatchBlendMode::Mul => {
             for c in 0..3 {
-                mul(bg_color[c], &fg[c][..xsize], xsize, clamp);
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Above,
+                );
+            }
+        }
+        PatchBlendMode::MulBelow => {
+            for c in 0..3 {
+                mul(
+                    bg_color[c],
+                    &fg[c][..xsize],
+                    xsize,
+                    clamp,
+                    BlendOrder::Below,
+                );
             }
         }
         PatchBlendMode::Replace => {
diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 411ffff..b567dfb 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -71,6 +71,9 @@ pub enum PatchBlendMode {
     // For other channels: sample = old + alpha * new
     AlphaWeightedAddAbove = 6,
     AlphaWeightedAddBelow = 7,
+    // Same as `Mul`, but with the meaning of new and old inverted. This is only used for
+    // frame blending, it cannot appear in a bitstream.
+    MulBelow = 8,
 }
 
 impl PatchBlendMode {
@@ -566,7 +569,9 @@ impl PatchesDictionary {
                         br,
                         PatchContext::PatchBlendMode as usize,
                     ) as u8;
-                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode) {
+                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode)
+                        .filter(|_| maybe_blend_mode < PatchBlendMode::NUM_BLEND_MODES)
+                    {
                         None => {
                             return Err(Error::PatchesInvalidBlendMode(
                                 maybe_blend_mode,
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index fbb54ec..517a2a0 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -43,7 +43,7 @@ impl From<&BlendingInfo> for PatchBlending {
         let mode = match info.mode {
             BlendingMode::Replace => PatchBlendMode::None,
             BlendingMode::Add => PatchBlendMode::Add,
-            BlendingMode::Mul => PatchBlendMode::Mul,
+            BlendingMode::Mul => PatchBlendMode::MulBelow,
             BlendingMode::Blend => PatchBlendMode::BlendBelow,
             BlendingMode::AlphaWeightedAdd => PatchBlendMode::AlphaWeightedAddBelow,
         };
-- 
2.43.0


From 5d2ca4a1a4b483077196ca4160a9ecb8826285c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 03/42] fix: reject patch blend modes above 255 instead of
 truncating them

---
 jxl/src/features/patches.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index b567dfb..3f87f1f 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -568,13 +568,13 @@ impl PatchesDictionary {
                         &patches_histograms,
                         br,
                         PatchContext::PatchBlendMode as usize,
-                    ) as u8;
-                    let blend_mode = match PatchBlendMode::from_u8(maybe_blend_mode)
-                        .filter(|_| maybe_blend_mode < PatchBlendMode::NUM_BLEND_MODES)
+                    );
+                    let blend_mode = match PatchBlendMode::from_u32(maybe_blend_mode)
+                        .filter(|_| maybe_blend_mode < PatchBlendMode::NUM_BLEND_MODES as u32)
                     {
                         None => {
                             return Err(Error::PatchesInvalidBlendMode(
-                                maybe_blend_mode,
+                                maybe_blend_mode.min(u8::MAX as u32) as u8,
                                 PatchBlendMode::NUM_BLEND_MODES,
                             ));
                         }
-- 
2.43.0


From 0c029f039eddb2dad1ce3f4a82aedbf34ef20405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 04/42] fix: avoid integer overflow when adding patch position
 deltas

---
 jxl/src/features/patches.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 3f87f1f..99c93bd 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -520,28 +520,32 @@ impl PatchesDictionary {
                         br,
                         PatchContext::PatchOffset as usize,
                     );
-                    if delta_x < 0 && (-delta_x as usize) > positions.last().unwrap().x {
+                    if delta_x < 0
+                        && (delta_x.unsigned_abs() as usize) > positions.last().unwrap().x
+                    {
                         return Err(Error::PatchesInvalidDelta(
                             "x".to_string(),
                             positions.last().unwrap().x,
                             delta_x,
                         ));
                     }
-                    pos.x = (positions.last().unwrap().x as i32 + delta_x) as usize;
+                    pos.x = (positions.last().unwrap().x as i64 + delta_x as i64) as usize;
 
                     let delta_y = patches_reader.read_signed(
                         &patches_histograms,
                         br,
                         PatchContext::PatchOffset as usize,
                     );
-                    if delta_y < 0 && (-delta_y as usize) > positions.last().unwrap().y {
+                    if delta_y < 0
+                        && (delta_y.unsigned_abs() as usize) > positions.last().unwrap().y
+                    {
                         return Err(Error::PatchesInvalidDelta(
                             "y".to_string(),
                             positions.last().unwrap().y,
                             delta_y,
                         ));
                     }
-                    pos.y = (positions.last().unwrap().y as i32 + delta_y) as usize;
+                    pos.y = (positions.last().unwrap().y as i64 + delta_y as i64) as usize;
                 }
 
                 if pos.x + ref_pos_xsize > xsize {
-- 
2.43.0


From 9cf36eca103739dc093db3aaf36a63575210dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 05/42] fix: reject blending onto a reference frame smaller
 than the image

---
 jxl/src/error.rs                  |  2 ++
 jxl/src/render/stages/blending.rs | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index b61d0fa..6eabdaa 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -167,6 +167,8 @@ pub enum Error {
         "Patches with extra-channel upsampling {1} that does not match non-1 color upsampling ({0}) are unsupported"
     )]
     PatchesUnsupportedMixedUpsampling(u32, u32),
+    #[error("Blending source {0} has size {1}x{2}, smaller than the {3}x{4} image")]
+    BlendingSourceTooSmall(usize, usize, usize, u32, u32),
     #[error("Too many {0}: {1}, limit is {2}")]
     PatchesTooMany(String, usize, usize),
     #[error("Reference too large: {0}, limit is {1}")]
diff --git a/jxl/src/render/stages/blending.rs b/jxl/src/render/stages/blending.rs
index 517a2a0..40670cf 100644
--- a/jxl/src/render/stages/blending.rs
+++ b/jxl/src/render/stages/blending.rs
@@ -3,7 +3,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::features::blending::perform_blending;
 use crate::features::patches::{PatchBlendMode, PatchBlending};
 use crate::frame::ReferenceFrame;
@@ -62,6 +62,20 @@ impl BlendingStage {
         reference_frames: Arc<[Option<ReferenceFrame>; 4]>,
     ) -> Result<BlendingStage> {
         let xsize = file_header.size.xsize();
+        let ysize = file_header.size.ysize();
+        for source in std::iter::once(&frame_header.blending_info)
+            .chain(frame_header.ec_blending_info.iter())
+            .map(|info| info.source as usize)
+        {
+            if let Some(reference) = &reference_frames[source] {
+                let size = reference.frame[0].size();
+                if size.0 < xsize as usize || size.1 < ysize as usize {
+                    return Err(Error::BlendingSourceTooSmall(
+                        source, size.0, size.1, xsize, ysize,
+                    ));
+                }
+            }
+        }
         let ec_blending_info = frame_header.ec_blending_info.clone();
         let ec_patch_blending_info = ec_blending_info.iter().map(PatchBlending::from).collect();
         Ok(BlendingStage {
-- 
2.43.0


From 4d78ec2066131a4411c86a42e5ab8937da4e4801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 06/42] fix: never ask for more input than parsing a header
 needs

---
 jxl/src/api/inner/codestream_parser/frame_info.rs |  7 +++----
 jxl/src/api/inner/codestream_parser/image_info.rs |  4 ----
 jxl/src/bit_reader.rs                             |  8 +++++---
 jxl/src/headers/permutation.rs                    | 10 +---------
 4 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 484ccae..c0c419b 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -165,10 +165,9 @@ impl FrameInfo {
             match toc_parser.read_step(br) {
                 Ok(()) => *bits = br.total_bits_read(),
                 Err(Error::OutOfBounds(c)) => {
-                    // Estimate >= 16 bits per remaining entry to read.
-                    return Err(Error::OutOfBounds(
-                        c + toc_parser.remaining_entries() as usize * 2,
-                    ));
+                    // Every entry that follows the one being read needs at least 12 bits.
+                    let following = (toc_parser.remaining_entries() as usize).saturating_sub(1);
+                    return Err(Error::OutOfBounds(c + following * 12 / 8));
                 }
                 Err(e) => return Err(e),
             }
diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index 1a18722..6819177 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -149,10 +149,6 @@ impl ImageInfo {
             for _ in 0..icc_parser.remaining() {
                 match icc_parser.read_one(br) {
                     Ok(()) => *bits = br.total_bits_read(),
-                    Err(Error::OutOfBounds(c)) => {
-                        // Estimate >= one bit per remaining character to read.
-                        return Err(Error::OutOfBounds(c + icc_parser.remaining() / 8));
-                    }
                     Err(e) => return Err(e),
                 }
             }
diff --git a/jxl/src/bit_reader.rs b/jxl/src/bit_reader.rs
index 4c2d557..5200912 100644
--- a/jxl/src/bit_reader.rs
+++ b/jxl/src/bit_reader.rs
@@ -108,7 +108,9 @@ impl<'a> BitReader<'a> {
 
     pub fn check_for_error(&self) -> Result<(), Error> {
         if self.total_bits_read > self.initial_bits {
-            Err(Error::OutOfBounds(self.total_bits_read - self.initial_bits))
+            // What was read past the end might not be what the missing data will contain, so
+            // nothing is known except that some data is missing.
+            Err(Error::OutOfBounds(1))
         } else {
             Ok(())
         }
@@ -153,7 +155,7 @@ impl<'a> BitReader<'a> {
         let bits_available = self.data.len() * 8;
         if n > bits_available {
             self.total_bits_read += bits_available;
-            return Err(Error::OutOfBounds(n - bits_available));
+            return Err(Error::OutOfBounds((n - bits_available).div_ceil(8)));
         }
 
         // Skip bytes directly in `data`, then handle leftover bits
@@ -173,7 +175,7 @@ impl<'a> BitReader<'a> {
         self.bit_buf >>= to_consume;
         self.bits_in_buf -= to_consume;
         if n > 0 {
-            Err(Error::OutOfBounds(n))
+            Err(Error::OutOfBounds(n.div_ceil(8)))
         } else {
             Ok(())
         }
diff --git a/jxl/src/headers/permutation.rs b/jxl/src/headers/permutation.rs
index b268e3f..c3ff651 100644
--- a/jxl/src/headers/permutation.rs
+++ b/jxl/src/headers/permutation.rs
@@ -53,15 +53,7 @@ impl Permutation {
 
         let mut prev_val = 0u32;
         for idx in skip..(skip + end) {
-            let val = match read(get_context(prev_val)) {
-                Ok(val) => val,
-                Err(Error::OutOfBounds(_)) => {
-                    // Estimate 1.5 bits for each remaining code
-                    let bits = (((skip + end) - idx) as usize).saturating_mul(3) / 2;
-                    return Err(Error::OutOfBounds(bits));
-                }
-                Err(e) => return Err(e),
-            };
+            let val = read(get_context(prev_val))?;
             if val >= size - idx {
                 return Err(Error::InvalidPermutationLehmerCode {
                     size,
-- 
2.43.0


From ca28df4c01d04cb0efee457bd691e2daba63e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 07/42] fix: ask for more input instead of reporting errors
 found past its end

---
 jxl/src/api/inner/process.rs | 7 ++++++-
 jxl/src/headers/toc.rs       | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 7ac7fbb..1d333ac 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -116,7 +116,12 @@ impl SmallBuffer {
         let mut br = BitReader::new(self);
         br.skip_bits(self.bit_offset as usize)?;
         let mut bits = br.total_bits_read();
-        let ret = fun(&mut br, &mut bits);
+        let mut ret = fun(&mut br, &mut bits);
+        if ret.is_err() {
+            // Errors found in the zeros that follow the end of the available data only mean
+            // that there is not enough data.
+            ret = br.check_for_error().and(ret);
+        }
         self.consume(bits / 8);
         self.bit_offset = (bits % 8) as u8;
         ret
diff --git a/jxl/src/headers/toc.rs b/jxl/src/headers/toc.rs
index 91cc8f9..c707656 100644
--- a/jxl/src/headers/toc.rs
+++ b/jxl/src/headers/toc.rs
@@ -92,8 +92,9 @@ impl IncrementalTocReader {
                 permuted: self.permuted,
             },
         )?;
+        br.check_for_error()?;
         self.permutation = Some(permutation);
-        br.check_for_error()
+        Ok(())
     }
 
     pub fn finalize(self) -> Toc {
-- 
2.43.0


From 95e09c34d6e4194a5c811719867ff7fc9ae28869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 08/42] fix: decode frame and extra channel names as UTF-8

---
 jxl/src/headers/encodings.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jxl/src/headers/encodings.rs b/jxl/src/headers/encodings.rs
index b06c4dd..6823063 100644
--- a/jxl/src/headers/encodings.rs
+++ b/jxl/src/headers/encodings.rs
@@ -153,11 +153,10 @@ impl UnconditionalCoder<()> for String {
             br,
             nonserialized,
         )?;
-        let mut ret = String::new();
-        ret.reserve(len as usize);
+        let mut ret = Vec::with_capacity(len as usize);
         for _ in 0..len {
             match br.read_noinline(8) {
-                Ok(c) => ret.push(c as u8 as char),
+                Ok(c) => ret.push(c as u8),
                 Err(Error::OutOfBounds(n)) => {
                     // Use saturating arithmetic to prevent underflow on malformed input
                     // ret.len()+1 cannot overflow since ret.len() <= isize::MAX
@@ -169,7 +168,8 @@ impl UnconditionalCoder<()> for String {
                 Err(e) => return Err(e),
             }
         }
-        Ok(ret)
+        // Names are UTF-8.
+        Ok(String::from_utf8_lossy(&ret).into_owned())
     }
 }
 
-- 
2.43.0


From ef9082e4522a92261238b7091b3c256cdad0b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 09/42] fix: track the codestream position of boxes that are
 out of order, empty or seeked into

The positions of out-of-order jxlp boxes were recorded when they were buffered
instead of when they become current, so frames starting in later boxes could be
given wrong offsets or be rejected depending on how the input was split. Seeking
to a frame in the middle of a box used the length of the whole box. Empty jxlp
boxes did not give way to buffered ones.
---
 jxl/src/api/inner/box_parser.rs | 162 ++++++++++++++++++--------------
 1 file changed, 92 insertions(+), 70 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 5ed1d9f..7b7774b 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -46,7 +46,10 @@ struct OOOJxlpBox {
 pub struct BoxParserCheckpoint {
     box_type: CodestreamBoxType,
     pub(super) file_position: u64,
+    // Size of the codestream data from this position to the end of the box.
     codestream_left: Option<u64>,
+    // Whether the box was read from the ooo jxlp buffer.
+    is_injected: bool,
     is_valid_checkpoint: bool,
     pub(crate) consumed_codestream: u64,
 }
@@ -60,6 +63,8 @@ pub(super) struct BoxParser {
     // Map from codestream position at the start of the box
     // to box info
     codestream_pos_to_box: BTreeMap<u64, BoxParserCheckpoint>,
+    // Codestream position at which the next codestream box starts.
+    next_box_codestream_pos: u64,
     allow_checkpoint: bool,
 }
 
@@ -72,14 +77,20 @@ impl BoxParser {
             ooo_jxlp_buffer: HashMap::new(),
             version: None,
             codestream_pos_to_box: BTreeMap::new(),
+            next_box_codestream_pos: 0,
             allow_checkpoint: true,
         }
     }
 
     pub(super) fn reset_to_checkpoint(&mut self, box_checkpoint: BoxParserCheckpoint) {
         self.local_buffer = SmallBuffer::new(128);
+        self.local_buffer
+            .mark_consumed(box_checkpoint.file_position);
         self.ooo_jxlp_buffer.clear();
         self.latest_codestream_box = box_checkpoint.box_type;
+        self.next_box_codestream_pos = box_checkpoint
+            .consumed_codestream
+            .saturating_add(box_checkpoint.codestream_left.unwrap_or(0));
         self.state = ParseState::Codestream(box_checkpoint.codestream_left);
         // Do not allow creating new checkpoints after a reset.
         self.allow_checkpoint = false;
@@ -89,56 +100,65 @@ impl BoxParser {
         &self,
         codestream_pos: u64,
     ) -> Result<Option<BoxParserCheckpoint>> {
-        if !self.allow_checkpoint {
-            Ok(None)
-        } else {
-            // last element with key <= codestream_pos.
-            let (&start, &(mut b)) = self
-                .codestream_pos_to_box
-                .range(..=codestream_pos)
-                .last()
-                .unwrap();
-            if !b.is_valid_checkpoint {
-                // Disallow files that have frame starts in boxes that are not
-                // valid checkpoints.
-                return Err(Error::InvalidBox);
+        // last element with key <= codestream_pos.
+        let (&start, &(mut b)) = self
+            .codestream_pos_to_box
+            .range(..=codestream_pos)
+            .last()
+            .unwrap();
+        let overflow = codestream_pos - start;
+        if let Some(left) = &mut b.codestream_left {
+            if *left <= overflow {
+                // The frame starts in a box that we have not seen yet.
+                return Err(Error::OutOfBounds(1));
             }
-            let overflow = codestream_pos - start;
-            b.file_position += overflow;
-            b.consumed_codestream = codestream_pos;
-            Ok(Some(b))
+            *left -= overflow;
+        }
+        if !b.is_valid_checkpoint {
+            // Disallow files that have frame starts in boxes that are not
+            // valid checkpoints.
+            return Err(Error::InvalidBox);
         }
+        if !self.allow_checkpoint {
+            return Ok(None);
+        }
+        b.file_position += overflow;
+        b.consumed_codestream = codestream_pos;
+        Ok(Some(b))
     }
 
     pub(super) fn total_bytes_consumed(&self, codestream_bytes_consumed: u64) -> u64 {
-        let (start, b) = self.codestream_pos_to_box.last_key_value().unwrap();
-        b.file_position + (codestream_bytes_consumed - *start)
+        // Box containing the last consumed byte.
+        let (start, b) = self
+            .codestream_pos_to_box
+            .range(..codestream_bytes_consumed)
+            .last()
+            .unwrap();
+        if b.is_injected {
+            b.file_position
+        } else {
+            b.file_position + (codestream_bytes_consumed - *start)
+        }
     }
 
-    fn add_checkpoint(&mut self) {
-        if !self.allow_checkpoint {
-            return;
-        }
+    // Records the position of the codestream box that starts at the current point of
+    // the codestream.
+    fn add_checkpoint(&mut self, codestream_left: Option<u64>, is_injected: bool) {
         // For a codestream box to be a valid checkpoint, it needs to be decoded
         // in-order (i.e. all other logically-preceding jxlp boxes have been seen already)
         // and we must not have seen any future jxlp boxes (which would be stored in the
         // ooo jxlp buffer).
-        let (codestream_left, is_valid_checkpoint) = match self.state {
-            ParseState::Codestream(c) => (c, self.ooo_jxlp_buffer.is_empty()),
-            ParseState::OOOJxlp(_, c) => (c, false),
-            _ => (None, false),
-        };
-        let codestream_position = self
-            .codestream_pos_to_box
-            .last_key_value()
-            .map(|(p, c)| *p + c.codestream_left.unwrap())
-            .unwrap_or(0);
+        let is_valid_checkpoint = !is_injected && self.ooo_jxlp_buffer.is_empty();
+        let codestream_position = self.next_box_codestream_pos;
+        self.next_box_codestream_pos =
+            codestream_position.saturating_add(codestream_left.unwrap_or(0));
         self.codestream_pos_to_box.insert(
             codestream_position,
             BoxParserCheckpoint {
                 file_position: self.local_buffer.consumed(),
                 box_type: self.latest_codestream_box,
                 codestream_left,
+                is_injected,
                 is_valid_checkpoint,
                 consumed_codestream: 0,
             },
@@ -157,7 +177,7 @@ impl BoxParser {
     }
 
     fn check_ooo_jxlp_done(&mut self) {
-        let CodestreamBoxType::Jxlp(j, is_last) = self.latest_codestream_box else {
+        let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box else {
             unreachable!()
         };
         let Some(b) = self.ooo_jxlp_buffer.get_mut(&j) else {
@@ -165,12 +185,26 @@ impl BoxParser {
         };
         if b.consumed == b.data.len() {
             self.ooo_jxlp_buffer.remove(&j);
-            if is_last {
-                self.state = ParseState::Complete;
-            } else if let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) {
-                self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
+            self.codestream_box_done();
+        }
+    }
+
+    // Called after reading all of the current codestream box.
+    fn codestream_box_done(&mut self) {
+        while let CodestreamBoxType::Jxlp(j, false) = self.latest_codestream_box {
+            self.state = ParseState::BoxNeeded(8);
+            let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1)) else {
+                return;
+            };
+            let len = b.data.len();
+            self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
+            self.add_checkpoint(Some(len as u64), true);
+            if len > 0 {
+                return;
             }
+            self.ooo_jxlp_buffer.remove(&(j + 1));
         }
+        self.state = ParseState::Complete;
     }
 
     fn mark_codestream_read(&mut self, n: usize) {
@@ -182,20 +216,7 @@ impl BoxParser {
         }
         let new_size = c.unwrap() - n as u64;
         if new_size == 0 {
-            self.state = if matches!(
-                self.latest_codestream_box,
-                CodestreamBoxType::Jxlc | CodestreamBoxType::Jxlp(_, true)
-            ) {
-                ParseState::Complete
-            } else {
-                if let CodestreamBoxType::Jxlp(j, _) = self.latest_codestream_box
-                    && let Some(b) = self.ooo_jxlp_buffer.get(&(j + 1))
-                {
-                    self.latest_codestream_box = CodestreamBoxType::Jxlp(j + 1, b.is_last);
-                    self.add_checkpoint();
-                }
-                ParseState::BoxNeeded(8)
-            }
+            self.codestream_box_done();
         } else {
             *c = Some(new_size);
         }
@@ -258,8 +279,11 @@ impl BoxParser {
 
     fn advance_to_codestream(&mut self, input: &mut dyn JxlBitstreamInput) -> Result<()> {
         loop {
+            if self.injected_jxlp().is_some() {
+                return Ok(());
+            }
             match self.state {
-                ParseState::Codestream(Some(0)) => self.state = ParseState::BoxNeeded(8),
+                ParseState::Codestream(Some(0)) => self.codestream_box_done(),
                 ParseState::Complete | ParseState::Codestream(_) => return Ok(()),
                 ParseState::SignatureNeeded => {
                     let codestream_signature_len = JxlSignatureType::Codestream.signature().len();
@@ -269,7 +293,7 @@ impl BoxParser {
                         Some(JxlSignatureType::Codestream) => {
                             self.state = ParseState::Codestream(None);
                             self.latest_codestream_box = CodestreamBoxType::Jxlc;
-                            self.add_checkpoint();
+                            self.add_checkpoint(None, false);
                             return Ok(());
                         }
                         Some(JxlSignatureType::Container) => {
@@ -390,7 +414,7 @@ impl BoxParser {
                 }
                 self.latest_codestream_box = CodestreamBoxType::Jxlc;
                 self.state = ParseState::Codestream(content_len);
-                self.add_checkpoint();
+                self.add_checkpoint(content_len, false);
             }
             b"jxlp" => {
                 let index = u32::from_be_bytes(self.local_buffer[..4].try_into().unwrap());
@@ -427,16 +451,12 @@ impl BoxParser {
                             is_last: last,
                         },
                     );
-                    // We create a known-invalid checkpoint here to ensure
-                    // that the checks work properly, and to count codestream
-                    // length correctly.
-                    self.add_checkpoint();
                     return Ok(());
                 }
                 // In-order jxlp
                 self.latest_codestream_box = CodestreamBoxType::Jxlp(idx, last);
                 self.state = ParseState::Codestream(content_len);
-                self.add_checkpoint();
+                self.add_checkpoint(content_len, false);
             }
             _ => self.state = ParseState::Skip(content_len),
         }
@@ -461,11 +481,10 @@ impl<'a> CodestreamInput<'a> {
     // The methods below have the same semantics as the methods in JxlBitstreamInput.
 
     pub(super) fn available_bytes(&mut self) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             return Ok(b.data.len() - b.consumed);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -475,6 +494,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn read(&mut self, buf: &mut [IoSliceMut]) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let mut r = &b.data[b.consumed..];
             let n = r.read_vectored(buf)?;
@@ -482,8 +502,6 @@ impl<'a> CodestreamInput<'a> {
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
@@ -500,24 +518,28 @@ impl<'a> CodestreamInput<'a> {
                 upper += 1;
             }
             let n = self.box_parser.read_inner(self.input, &mut buf[..upper])?;
-            let left = (limit - n as u64) as usize;
-            n + self
-                .box_parser
-                .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            // If the first buffers were not filled, the next one must be left untouched.
+            if (n as u64) < cumsum {
+                n
+            } else {
+                let left = (limit - n as u64) as usize;
+                n + self
+                    .box_parser
+                    .read_inner(self.input, &mut [IoSliceMut::new(&mut buf[upper][..left])])?
+            }
         };
         self.box_parser.mark_codestream_read(n);
         Ok(n)
     }
 
     pub(super) fn skip(&mut self, amount: usize) -> Result<usize> {
+        self.box_parser.advance_to_codestream(self.input)?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let n = (b.data.len() - b.consumed).min(amount);
             b.consumed += n;
             self.box_parser.check_ooo_jxlp_done();
             return Ok(n);
         }
-
-        self.box_parser.advance_to_codestream(self.input)?;
         let ParseState::Codestream(r) = self.box_parser.state else {
             return Ok(0);
         };
-- 
2.43.0


From 01bb9d133cf12e6f8cd6014c06114563c4519a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 10/42] fix: do not report more bytes skipped or read than the
 input has

---
 jxl/src/api/input.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/jxl/src/api/input.rs b/jxl/src/api/input.rs
index dd4a91f..4efbbd2 100644
--- a/jxl/src/api/input.rs
+++ b/jxl/src/api/input.rs
@@ -26,7 +26,10 @@ pub trait JxlBitstreamInput {
         let mut skipped = 0;
         while bytes > 0 {
             let num = bytes.min(BUF_SIZE);
-            self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            let num = self.read(&mut [IoSliceMut::new(&mut skip_buf[..num])])?;
+            if num == 0 {
+                break;
+            }
             bytes -= num;
             skipped += num;
         }
@@ -58,13 +61,23 @@ impl<R: Read + Seek> JxlBitstreamInput for BufReader<R> {
         Ok(end.saturating_sub(pos) as usize)
     }
 
-    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, Error> {
-        self.read_vectored(bufs)
+    fn read(&mut self, mut bufs: &mut [IoSliceMut]) -> Result<usize, Error> {
+        // A single `read_vectored` might return less data than is available.
+        let mut total = 0;
+        loop {
+            let n = self.read_vectored(bufs)?;
+            if n == 0 {
+                return Ok(total);
+            }
+            total += n;
+            IoSliceMut::advance_slices(&mut bufs, n);
+        }
     }
 
     fn skip(&mut self, bytes: usize) -> Result<usize, Error> {
-        let cur = self.stream_position()?;
-        self.seek(SeekFrom::Current(bytes as i64))
-            .map(|x| x.saturating_sub(cur) as usize)
+        // Seeking past the end of the input would not fail.
+        let bytes = bytes.min(self.available_bytes()?);
+        self.seek_relative(bytes as i64)?;
+        Ok(bytes)
     }
 }
-- 
2.43.0


From 0a9dc60a051ef0036a268d75e18c59cd5c2e7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 11/42] fix: report everything that precedes a missing or
 invalid box

Reading ahead past the end of a codestream box made an incomplete or invalid
following box hide the data before it, depending on how the input was split.
Skipping a frame's sections stopped at the end of a box.
---
 jxl/src/api/inner/box_parser.rs               | 32 ++++++++++++++++---
 .../api/inner/codestream_parser/frame_info.rs | 12 ++++---
 jxl/src/api/inner/process.rs                  | 11 +++++--
 3 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index 7b7774b..e48a061 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -25,6 +25,9 @@ enum ParseState {
     // After the last codestream box, no more container bytes: no further
     // codestream in file.
     Complete,
+    // A box that does not follow the rules was found: there is no further valid
+    // codestream.
+    Invalid,
 }
 
 // Relevant box types.
@@ -127,6 +130,11 @@ impl BoxParser {
         Ok(Some(b))
     }
 
+    /// Returns whether an invalid box was found after the codestream read so far.
+    pub(super) fn found_invalid_box(&self) -> bool {
+        self.state == ParseState::Invalid
+    }
+
     pub(super) fn total_bytes_consumed(&self, codestream_bytes_consumed: u64) -> u64 {
         // Box containing the last consumed byte.
         let (start, b) = self
@@ -284,7 +292,9 @@ impl BoxParser {
             }
             match self.state {
                 ParseState::Codestream(Some(0)) => self.codestream_box_done(),
-                ParseState::Complete | ParseState::Codestream(_) => return Ok(()),
+                ParseState::Complete | ParseState::Invalid | ParseState::Codestream(_) => {
+                    return Ok(());
+                }
                 ParseState::SignatureNeeded => {
                     let codestream_signature_len = JxlSignatureType::Codestream.signature().len();
                     self.read_until_at_least(input, codestream_signature_len)?;
@@ -478,10 +488,24 @@ impl<'a> CodestreamInput<'a> {
         self.box_parser
     }
 
+    // Moves to the next available byte of codestream, if any.
+    fn advance(&mut self) -> Result<()> {
+        match self.box_parser.advance_to_codestream(self.input) {
+            // There might still be unprocessed codestream that was read before this point, so
+            // behave as if we reached the end of the available input.
+            Err(Error::OutOfBounds(_)) => Ok(()),
+            Err(Error::InvalidBox) => {
+                self.box_parser.state = ParseState::Invalid;
+                Ok(())
+            }
+            r => r,
+        }
+    }
+
     // The methods below have the same semantics as the methods in JxlBitstreamInput.
 
     pub(super) fn available_bytes(&mut self) -> Result<usize> {
-        self.box_parser.advance_to_codestream(self.input)?;
+        self.advance()?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             return Ok(b.data.len() - b.consumed);
         }
@@ -494,7 +518,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn read(&mut self, buf: &mut [IoSliceMut]) -> Result<usize> {
-        self.box_parser.advance_to_codestream(self.input)?;
+        self.advance()?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let mut r = &b.data[b.consumed..];
             let n = r.read_vectored(buf)?;
@@ -533,7 +557,7 @@ impl<'a> CodestreamInput<'a> {
     }
 
     pub(super) fn skip(&mut self, amount: usize) -> Result<usize> {
-        self.box_parser.advance_to_codestream(self.input)?;
+        self.advance()?;
         if let Some(b) = self.box_parser.injected_jxlp() {
             let n = (b.data.len() - b.consumed).min(amount);
             b.consumed += n;
diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index c0c419b..0caa768 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -332,10 +332,14 @@ impl FrameInfo {
         buf: &mut SmallBuffer,
     ) -> Result<()> {
         let total_size = self.section_size;
-        let need_skip = total_size - self.ready_section_data;
-        let skipped = input.skip(need_skip)?;
-        buf.mark_consumed(skipped as u64);
-        self.ready_section_data += skipped;
+        while self.ready_section_data < total_size {
+            let skipped = input.skip(total_size - self.ready_section_data)?;
+            if skipped == 0 {
+                break;
+            }
+            buf.mark_consumed(skipped as u64);
+            self.ready_section_data += skipped;
+        }
         if self.ready_section_data < total_size {
             Err(Error::OutOfBounds(total_size - self.ready_section_data))
         } else {
diff --git a/jxl/src/api/inner/process.rs b/jxl/src/api/inner/process.rs
index 1d333ac..61e8720 100644
--- a/jxl/src/api/inner/process.rs
+++ b/jxl/src/api/inner/process.rs
@@ -12,7 +12,7 @@ use crate::api::{
     ProcessingResult,
 };
 use crate::bit_reader::BitReader;
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 /// A small buffer, that guarantees to never use more than twice the maximum
 /// amount of bytes that were simultaneously present in it.
@@ -159,12 +159,17 @@ impl JxlDecoderInner {
         buffers: Option<&mut [JxlOutputBuffer]>,
         parallel_runner: Option<&mut dyn JxlParallelRunner>,
     ) -> Result<ProcessingResult<(), ()>> {
-        ProcessingResult::new(self.codestream_parser.process(
+        let mut result = self.codestream_parser.process(
             &mut CodestreamInput::new(&mut self.box_parser, input),
             &self.options,
             buffers,
             parallel_runner.unwrap_or(&mut SequentialRunner),
-        ))
+        );
+        if matches!(result, Err(Error::OutOfBounds(_))) && self.box_parser.found_invalid_box() {
+            // All the data preceding the invalid box was processed.
+            result = Err(Error::InvalidBox);
+        }
+        ProcessingResult::new(result)
     }
 
     /// Draws all the pixels we have data for. Returns `true` if any new pixels
-- 
2.43.0


From b66d0834915281d1c770d6f5b44d80a4a53cc30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 12/42] fix: know the position of the box a seek starts in

---
 jxl/src/api/inner/box_parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index e48a061..add9c44 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -94,6 +94,8 @@ impl BoxParser {
         self.next_box_codestream_pos = box_checkpoint
             .consumed_codestream
             .saturating_add(box_checkpoint.codestream_left.unwrap_or(0));
+        self.codestream_pos_to_box
+            .insert(box_checkpoint.consumed_codestream, box_checkpoint);
         self.state = ParseState::Codestream(box_checkpoint.codestream_left);
         // Do not allow creating new checkpoints after a reset.
         self.allow_checkpoint = false;
-- 
2.43.0


From 10a0369968203a96d14bbae03c923bf705cb11a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 13/42] fix: store exactly the bytes of boxes that are out of
 order

---
 jxl/src/api/inner/box_parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/box_parser.rs b/jxl/src/api/inner/box_parser.rs
index add9c44..f4dac29 100644
--- a/jxl/src/api/inner/box_parser.rs
+++ b/jxl/src/api/inner/box_parser.rs
@@ -336,7 +336,12 @@ impl BoxParser {
                     let mut buf = self.ooo_jxlp_buffer.remove(&id).unwrap();
                     let mut total = 0;
                     loop {
-                        let space = buf.data.len().max(1024).min(input.available_bytes()?) as u64;
+                        let space = buf
+                            .data
+                            .len()
+                            .max(1024)
+                            .min(self.available_bytes_inner(input)?)
+                            as u64;
                         let space = count.map(|x| (x - total).min(space)).unwrap_or(space) as usize;
                         if space == 0 {
                             break;
@@ -346,6 +351,7 @@ impl BoxParser {
                         buf.data.resize(cur + space, 0);
                         let n =
                             self.read_inner(input, &mut [IoSliceMut::new(&mut buf.data[cur..])])?;
+                        buf.data.truncate(cur + n);
                         if n == 0 {
                             break;
                         }
-- 
2.43.0


From 6110074f199942b3b9a49b14e8ef6cc4bde5c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 14/42] fix: start seeks early enough for every frame decoded
 on the way

---
 .../inner/codestream_parser/frame_scan_info.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 15954f9..3b48f61 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -29,6 +29,9 @@ pub(super) struct FrameScanInfo {
     /// For each LF slot, earliest frame index required to reconstruct the
     /// current contents of that slot.
     lf_slot_decode_start: [Option<usize>; DecoderState::NUM_LF_FRAMES],
+    /// Sorted, disjoint ranges of frames `(start, end)` such that frame `end`
+    /// cannot be decoded at all unless decoding starts at or before `start`.
+    indivisible_ranges: Vec<(usize, usize)>,
     /// Box parser state where the current frame header parse started.
     /// Set when we begin parsing a frame header.
     current_frame_box_parser_checkpoint: Option<BoxParserCheckpoint>,
@@ -42,6 +45,7 @@ impl FrameScanInfo {
             frame_starts: Vec::new(),
             reference_slot_decode_start: [None; DecoderState::MAX_STORED_FRAMES],
             lf_slot_decode_start: [None; DecoderState::NUM_LF_FRAMES],
+            indivisible_ranges: Vec::new(),
             current_frame_box_parser_checkpoint: None,
         }
     }
@@ -107,6 +111,20 @@ impl FrameScanInfo {
             }
         }
 
+        // Every frame from the decode start on is decoded, so those that depend
+        // on even earlier frames move the decode start back too.
+        let range_index = self
+            .indivisible_ranges
+            .partition_point(|range| range.1 < decode_start_frame_index);
+        if let Some(range) = self.indivisible_ranges.get(range_index) {
+            decode_start_frame_index = decode_start_frame_index.min(range.0);
+        }
+        if header.has_patches() || header.has_lf_frame() {
+            self.indivisible_ranges.truncate(range_index);
+            self.indivisible_ranges
+                .push((decode_start_frame_index, current_frame_index));
+        }
+
         if is_visible {
             let duration_ticks = header.duration;
             let duration_ms = if let Some(anim) = animation {
-- 
2.43.0


From 200472202e008d801f12f5c75b5738e75fa5e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:38 +0000
Subject: [PATCH 15/42] fix: do not decode hidden frames when only scanning

---
 jxl/src/api/inner/codestream_parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index 47b6cd7..a7a95f0 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -273,8 +273,8 @@ impl CodestreamParser {
                         process_mode = ProcessMode::SkipOutput;
                     }
 
-                    if decode_options.scan_frames_only && process_mode == ProcessMode::Process {
-                        process_mode = ProcessMode::Skip(true);
+                    if decode_options.scan_frames_only {
+                        process_mode = ProcessMode::Skip(process_mode.notify_user());
                     }
 
                     self.state = ParserState::Sections {
-- 
2.43.0


From c3ef33a91574b89e3194a9d929591688c8c51219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 16/42] fix: drop an import that an earlier fix left unused

---
 jxl/src/api/inner/codestream_parser/image_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/codestream_parser/image_info.rs b/jxl/src/api/inner/codestream_parser/image_info.rs
index 6819177..6f3faac 100644
--- a/jxl/src/api/inner/codestream_parser/image_info.rs
+++ b/jxl/src/api/inner/codestream_parser/image_info.rs
@@ -10,7 +10,7 @@ use crate::api::{
     JxlDataFormat, JxlDecoderOptions, JxlExtraChannel, JxlPixelFormat, ToneMapping,
 };
 use crate::bit_reader::BitReader;
-use crate::error::{Error, Result};
+use crate::error::Result;
 use crate::headers::color_encoding::ColorSpace;
 use crate::headers::{FileHeader, JxlHeader};
 use crate::icc::IncrementalIccReader;
-- 
2.43.0


From 37f48d7cda1b11d20ba1fd9b6c947ebf4ee694bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 17/42] fix: report an error instead of panicking when the
 groups of transformed channels cannot be matched

---
 jxl/src/error.rs                              |  2 ++
 jxl/src/frame/modular/mod.rs                  |  2 +-
 .../frame/modular/transforms/meta_apply.rs    | 24 +++++++++++++++----
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/jxl/src/error.rs b/jxl/src/error.rs
index 6eabdaa..86f5eb2 100644
--- a/jxl/src/error.rs
+++ b/jxl/src/error.rs
@@ -219,6 +219,8 @@ pub enum Error {
     MetaSqueezeRequiresInPlace,
     #[error("Invalid transform: too many squeezes (shift > 30)")]
     TooManySqueezes,
+    #[error("Unsupported transforms: the groups of the transformed channels cannot be matched")]
+    UnsupportedTransformGrid,
     #[error("Invalid BlockConextMap: too big: num_lf_context: {0}, num_qf_thresholds: {1}")]
     BlockContextMapSizeTooBig(usize, usize),
     #[error("Invalid BlockConextMap: too many distinct contexts.")]
diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 2915378..1fba73e 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -430,7 +430,7 @@ impl FullModularImage {
             &section_buffer_indices,
             &mut buffer_info,
             modular_color_channels,
-        );
+        )?;
 
         #[cfg(feature = "tracing")]
         for (i, bi) in buffer_info.iter().enumerate() {
diff --git a/jxl/src/frame/modular/transforms/meta_apply.rs b/jxl/src/frame/modular/transforms/meta_apply.rs
index b027d1f..4398dd1 100644
--- a/jxl/src/frame/modular/transforms/meta_apply.rs
+++ b/jxl/src/frame/modular/transforms/meta_apply.rs
@@ -306,7 +306,7 @@ pub fn make_grids(
     section_buffer_indices: &[Vec<usize>],
     buffer_info: &mut Vec<ModularBufferInfo>,
     color_channels: usize,
-) -> Vec<TransformStepChunk> {
+) -> Result<Vec<TransformStepChunk>> {
     // Initialize grid sizes, starting from coded channels.
     for i in section_buffer_indices[1].iter() {
         buffer_info[*i].grid_kind = ModularGridKind::Lf;
@@ -328,8 +328,10 @@ pub fn make_grids(
                 buf_in, buf_out, ..
             } => {
                 let grid_in = buffer_info[buf_in[0]].grid_kind;
-                for i in 0..3 {
-                    assert_eq!(grid_in, buffer_info[buf_in[i]].grid_kind);
+                // Channels of equal shape can still be split in groups of different kinds, if
+                // further squeezes applied to some of them but not to others.
+                if buf_in.iter().any(|b| buffer_info[*b].grid_kind != grid_in) {
+                    return Err(Error::UnsupportedTransformGrid);
                 }
                 for i in 0..3 {
                     buffer_info[buf_out[i]].grid_kind = grid_in;
@@ -366,6 +368,20 @@ pub fn make_grids(
         }
     }
 
+    // A grid cannot cover a channel if its groups are smaller than one sample of the channel.
+    for buf in buffer_info.iter() {
+        if buf.grid_kind != ModularGridKind::None
+            && buf.info.size.0 != 0
+            && buf.info.size.1 != 0
+            && let Some(shift) = buf.info.shift
+        {
+            let dim = buf.grid_kind.grid_dim(frame_header, shift);
+            if dim.0 == 0 || dim.1 == 0 {
+                return Err(Error::UnsupportedTransformGrid);
+            }
+        }
+    }
+
     // Set grid shapes.
     for buf in buffer_info.iter_mut() {
         buf.grid_shape = buf.grid_kind.grid_shape(frame_header);
@@ -723,5 +739,5 @@ pub fn make_grids(
 
     trace!(?grid_transform_steps, ?buffer_info);
 
-    grid_transform_steps
+    Ok(grid_transform_steps)
 }
-- 
2.43.0


From 164eeba15ffb553ef4a01e67ec466f064b8a96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 18/42] fix: colour transforms on a group a channel does not
 reach panicked

---
 jxl/src/frame/modular/transforms/step.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index 20c0f33..c14bc35 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -618,6 +618,10 @@ impl TransformStepChunk {
                     }
                 }
                 with_buffers(buffers, buf_out, out_grid, |mut bufs| {
+                    // Empty tiles have no buffers.
+                    if bufs.is_empty() {
+                        return Ok(());
+                    }
                     super::rct::do_rct_step(&mut bufs, *op, *perm);
                     Ok(())
                 })?;
-- 
2.43.0


From 2d198dfc5a19fcf6667d51ced1f5cc00d5b48e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 19/42] fix: palettes with row-wide predictors panicked on
 groups a channel does not reach

---
 jxl/src/frame/modular/transforms/palette.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jxl/src/frame/modular/transforms/palette.rs b/jxl/src/frame/modular/transforms/palette.rs
index 702cc9d..798a710 100644
--- a/jxl/src/frame/modular/transforms/palette.rs
+++ b/jxl/src/frame/modular/transforms/palette.rs
@@ -396,6 +396,11 @@ pub fn do_palette_step_group_row(
         .map(|buf| buf.data.size().0)
         .sum();
 
+    // The channel might not reach this row of groups.
+    if h == 0 || total_w == 0 {
+        return Ok(());
+    }
+
     scratch[0].resize(total_w, 0);
     scratch[1].resize(total_w, 0);
 
@@ -416,6 +421,9 @@ pub fn do_palette_step_group_row(
             for grid_x in 0..grid_xsize {
                 let prev_img = prev[out_row_idx + grid_x];
                 let w = prev_img.size().0;
+                if w == 0 {
+                    continue;
+                }
                 scratch[0][x_offset..x_offset + w].copy_from_slice(prev_img.row(3));
                 scratch[1][x_offset..x_offset + w].copy_from_slice(prev_img.row(2));
                 x_offset += w;
@@ -439,6 +447,9 @@ pub fn do_palette_step_group_row(
 
             let mut gx = 0;
             for (grid_x, index_buf) in buf_in.iter().enumerate().take(grid_xsize) {
+                if index_buf.data.size().0 == 0 {
+                    continue;
+                }
                 let index_img = index_buf.data.row(y);
                 let out_idx = out_row_idx + grid_x;
                 let out_row = buf_out[out_idx].data.row_mut(y);
-- 
2.43.0


From 7496fb1d7195fef46110095ad6a23d59b7c5f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 20/42] fix: codes without LZ77 were taken for run-length codes
 on the fast lossless path (panic)

---
 jxl/src/entropy_coding/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/decode.rs b/jxl/src/entropy_coding/decode.rs
index 9318f4e..56196af 100644
--- a/jxl/src/entropy_coding/decode.rs
+++ b/jxl/src/entropy_coding/decode.rs
@@ -574,7 +574,9 @@ impl Histograms {
     pub fn is_rle(&self) -> bool {
         let lz_dist_cluster = self.lz_dist_cluster as usize;
         let lz_conf = &self.uint_configs[lz_dist_cluster];
-        self.codes.single_symbol(lz_dist_cluster) == Some(1) && lz_conf.is_split_exponent_zero()
+        self.lz77_params.enabled
+            && self.codes.single_symbol(lz_dist_cluster) == Some(1)
+            && lz_conf.is_split_exponent_zero()
     }
 
     pub(crate) fn lz77_params(&self) -> Lz77Params {
-- 
2.43.0


From 22b8490e3cbc382c6b16287ac4aaf5a1ae384f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 21/42] fix: palettes with row-wide predictors panicked below
 groups a channel does not reach

---
 jxl/src/frame/modular/transforms/palette.rs | 10 +++++-----
 jxl/src/frame/modular/transforms/step.rs    |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/palette.rs b/jxl/src/frame/modular/transforms/palette.rs
index 798a710..4a5945d 100644
--- a/jxl/src/frame/modular/transforms/palette.rs
+++ b/jxl/src/frame/modular/transforms/palette.rs
@@ -376,7 +376,8 @@ pub fn do_palette_step_group_row(
     buf_in: &[&ModularChannel],
     buf_pal: &ModularChannel,
     buf_out: &mut [&mut ModularChannel],
-    buf_prev: Option<&[&Image<i32>]>,
+    // Borders of the row of groups above; groups the channel does not reach have none.
+    buf_prev: Option<&[Option<&Image<i32>>]>,
     prev_aux: Option<&[Option<&Image<i32>>]>,
     aux_out: &mut [RwLockWriteGuard<Option<Image<i32>>>],
     grid_xsize: usize,
@@ -419,11 +420,10 @@ pub fn do_palette_step_group_row(
         if let Some(prev) = buf_prev {
             let mut x_offset = 0;
             for grid_x in 0..grid_xsize {
-                let prev_img = prev[out_row_idx + grid_x];
-                let w = prev_img.size().0;
-                if w == 0 {
+                let Some(prev_img) = prev[out_row_idx + grid_x] else {
                     continue;
-                }
+                };
+                let w = prev_img.size().0;
                 scratch[0][x_offset..x_offset + w].copy_from_slice(prev_img.row(3));
                 scratch[1][x_offset..x_offset + w].copy_from_slice(prev_img.row(2));
                 x_offset += w;
diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index c14bc35..86c59f3 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -770,8 +770,8 @@ impl TransformStepChunk {
                             }
                         }
                     }
-                    let prev_refs: Vec<&Image<i32>> =
-                        prev_guards.iter().map(|g| g.as_ref().unwrap()).collect();
+                    let prev_refs: Vec<Option<&Image<i32>>> =
+                        prev_guards.iter().map(|g| g.as_ref()).collect();
                     let prev_aux_refs: Vec<Option<&Image<i32>>> =
                         prev_aux_guards.iter().map(|g| g.as_ref()).collect();
                     let mut guards = vec![];
-- 
2.43.0


From f2c7d3200139d26ee319ce40f316988b07a22c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 22/42] fix: palettes with predictors panicked on groups a
 channel does not reach

---
 jxl/src/frame/modular/transforms/step.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index 86c59f3..3d6ee56 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -657,8 +657,12 @@ impl TransformStepChunk {
                     let grid_shape = buffers[buf_out[0]].grid_shape;
                     let grid_x = out_grid % grid_shape.0;
                     let grid_y = out_grid / grid_shape.0;
-                    let has_left = *predictor != Predictor::Zero && grid_x > 0;
-                    let has_top = *predictor != Predictor::Zero && grid_y > 0;
+                    // Neighbouring tiles that are empty have no borders.
+                    let tile_size = buffers[buf_out[0]].buffer_grid[out_grid].size;
+                    let needs_context =
+                        *predictor != Predictor::Zero && tile_size.0 != 0 && tile_size.1 != 0;
+                    let has_left = needs_context && grid_x > 0;
+                    let has_top = needs_context && grid_y > 0;
                     let borrow_border_guards = |grid_idx: usize, is_lr: bool| {
                         buf_out
                             .iter()
-- 
2.43.0


From 278eceddaf93a6e54ba947b1b38118d3bed2f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 23/42] fix: row-wide palette predictors lost their context
 across groups one row high

---
 jxl/src/frame/modular/predict.rs            |  8 ++--
 jxl/src/frame/modular/transforms/palette.rs | 19 ++++++++--
 jxl/src/frame/modular/transforms/step.rs    | 41 +++++++++------------
 3 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/jxl/src/frame/modular/predict.rs b/jxl/src/frame/modular/predict.rs
index c6309ac..93f45b6 100644
--- a/jxl/src/frame/modular/predict.rs
+++ b/jxl/src/frame/modular/predict.rs
@@ -269,12 +269,14 @@ impl WeightedPredictorState {
         }
     }
 
-    pub fn save_state(&self, wp_image: &mut Image<i32>) {
+    /// Saves the state left by row `y`; it is restored as that of an odd row.
+    pub fn save_state(&self, y: usize, wp_image: &mut Image<i32>) {
         let row_stride = self.xsize + 1;
+        let start = if y & 1 != 0 { 0 } else { row_stride };
         wp_image
             .row_mut(0)
-            .copy_from_slice(&self.error[0..row_stride]);
-        let src = &self.pred_errors_buffer;
+            .copy_from_slice(&self.error[start..][..row_stride]);
+        let src = &self.pred_errors_buffer[start..][..row_stride];
         let [d0, d1, d2, d3] = wp_image.distinct_rows_mut([1, 2, 3, 4]);
         for ((((d0, d1), d2), d3), &s) in d0
             .iter_mut()
diff --git a/jxl/src/frame/modular/transforms/palette.rs b/jxl/src/frame/modular/transforms/palette.rs
index 4a5945d..0f39f37 100644
--- a/jxl/src/frame/modular/transforms/palette.rs
+++ b/jxl/src/frame/modular/transforms/palette.rs
@@ -425,10 +425,12 @@ pub fn do_palette_step_group_row(
                 };
                 let w = prev_img.size().0;
                 scratch[0][x_offset..x_offset + w].copy_from_slice(prev_img.row(3));
-                scratch[1][x_offset..x_offset + w].copy_from_slice(prev_img.row(2));
                 x_offset += w;
             }
         }
+        if let Some(aux) = prev_aux {
+            scratch[1].copy_from_slice(&aux[c].unwrap().row(5)[..total_w]);
+        }
 
         for y in 0..h {
             let has_top = y > 0 || buf_prev.is_some();
@@ -516,11 +518,20 @@ pub fn do_palette_step_group_row(
             }
         }
 
+        // Groups can be a single row high, so the row above the last one is not
+        // necessarily part of their borders.
+        let last = h % 2;
+        let above = if h > 1 || buf_prev.is_some() {
+            1 - last
+        } else {
+            last
+        };
+        let mut aux_image = Image::<i32>::new((total_w + 1, 6))?;
         if let Some(wp) = wp_state {
-            let mut wp_image = Image::<i32>::new((total_w + 1, 5))?;
-            wp.save_state(&mut wp_image);
-            *aux_out[c] = Some(wp_image);
+            wp.save_state(h - 1, &mut aux_image);
         }
+        aux_image.row_mut(5)[..total_w].copy_from_slice(&scratch[above]);
+        *aux_out[c] = Some(aux_image);
     }
     Ok(())
 }
diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index 3d6ee56..2fd0e10 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -763,15 +763,13 @@ impl TransformStepChunk {
                                 let grid = (grid_y - 1) * grid_shape.0 + grid_x;
                                 prev_guards.push(borrow_topbottom(buffers, (*i, grid)));
                             }
-                            if *predictor == Predictor::Weighted {
-                                let grid = (grid_y - 1) * grid_shape.0;
-                                prev_aux_guards.push(
-                                    buffers[*i].buffer_grid[grid]
-                                        .auxiliary_data
-                                        .try_read()
-                                        .unwrap(),
-                                );
-                            }
+                            let grid = (grid_y - 1) * grid_shape.0;
+                            prev_aux_guards.push(
+                                buffers[*i].buffer_grid[grid]
+                                    .auxiliary_data
+                                    .try_read()
+                                    .unwrap(),
+                            );
                         }
                     }
                     let prev_refs: Vec<Option<&Image<i32>>> =
@@ -788,26 +786,21 @@ impl TransformStepChunk {
                     }
                     let mut out_buf_refs: Vec<&mut ModularChannel> =
                         guards.iter_mut().map(|g| g.as_mut().unwrap()).collect();
-                    let mut aux_out: Vec<_> = if *predictor == Predictor::Weighted {
-                        buf_out
-                            .iter()
-                            .map(|i| {
-                                buffers[*i].buffer_grid[grid_y * grid_shape.0]
-                                    .auxiliary_data
-                                    .try_write()
-                                    .unwrap()
-                            })
-                            .collect()
-                    } else {
-                        vec![]
-                    };
+                    let mut aux_out: Vec<_> = buf_out
+                        .iter()
+                        .map(|i| {
+                            buffers[*i].buffer_grid[grid_y * grid_shape.0]
+                                .auxiliary_data
+                                .try_write()
+                                .unwrap()
+                        })
+                        .collect();
                     super::palette::do_palette_step_group_row(
                         &in_buf_refs,
                         img_pal.as_ref().unwrap(),
                         &mut out_buf_refs,
                         (grid_y > 0).then_some(&prev_refs[..]),
-                        (grid_y > 0 && *predictor == Predictor::Weighted)
-                            .then_some(&prev_aux_refs[..]),
+                        (grid_y > 0).then_some(&prev_aux_refs[..]),
                         &mut aux_out,
                         grid_shape.0,
                         *num_colors,
-- 
2.43.0


From 46f8191f077845769a5c2ae04b44996126f76128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 24/42] fix: simple context maps with unused histograms were
 accepted

---
 jxl/src/entropy_coding/context_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jxl/src/entropy_coding/context_map.rs b/jxl/src/entropy_coding/context_map.rs
index ec1b9ac..0989df1 100644
--- a/jxl/src/entropy_coding/context_map.rs
+++ b/jxl/src/entropy_coding/context_map.rs
@@ -45,9 +45,11 @@ pub fn decode_context_map(num_contexts: usize, br: &mut BitReader) -> Result<Vec
     if is_simple {
         let bits_per_entry = br.read(2)? as usize;
         if bits_per_entry != 0 {
-            (0..num_contexts)
+            let ctx_map = (0..num_contexts)
                 .map(|_| Ok(br.read(bits_per_entry)? as u8))
-                .collect()
+                .collect::<Result<Vec<u8>, Error>>()?;
+            verify_context_map(&ctx_map[..])?;
+            Ok(ctx_map)
         } else {
             Ok(vec![0u8; num_contexts])
         }
-- 
2.43.0


From e168936ae1a3ce8d0b755f433d7fc85fc6807632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 25/42] fix: ICC tag offsets and sizes of 2^32 and more were
 truncated instead of rejected

---
 jxl/src/icc/tag.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jxl/src/icc/tag.rs b/jxl/src/icc/tag.rs
index e060856..e46e373 100644
--- a/jxl/src/icc/tag.rs
+++ b/jxl/src/icc/tag.rs
@@ -21,6 +21,11 @@ const COMMON_DATA: [&[u8; 4]; 8] = [
     b"XYZ ", b"desc", b"text", b"mluc", b"para", b"curv", b"sf32", b"gbd ",
 ];
 
+/// Offsets and sizes of tags are 32-bit numbers; larger values do not describe any profile.
+fn read_u32_varint(commands_stream: &mut Cursor<Vec<u8>>) -> Result<u32> {
+    u32::try_from(read_varint_from_reader(commands_stream)?).map_err(|_| Error::InvalidIccStream)
+}
+
 pub(super) fn read_tag_list(
     data_stream: &mut IccStream,
     commands_stream: &mut Cursor<Vec<u8>>,
@@ -54,10 +59,10 @@ pub(super) fn read_tag_list(
                 .checked_add(prev_tagsize)
                 .ok_or(Error::InvalidIccStream)?
         } else {
-            read_varint_from_reader(commands_stream)? as u32
+            read_u32_varint(commands_stream)?
         };
         let tagsize = match &tag {
-            _ if command & 128 != 0 => read_varint_from_reader(commands_stream)? as u32,
+            _ if command & 128 != 0 => read_u32_varint(commands_stream)?,
             b"rXYZ" | b"gXYZ" | b"bXYZ" | b"kXYZ" | b"wtpt" | b"bkpt" | b"lumi" => 20,
             _ => prev_tagsize,
         };
-- 
2.43.0


From 298e353438189dc0751c76640f0e0e593dd809d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 26/42] fix: simple prefix codes with a repeated symbol were
 accepted

---
 jxl/src/entropy_coding/huffman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/entropy_coding/huffman.rs b/jxl/src/entropy_coding/huffman.rs
index 00702e8..ee17d1b 100644
--- a/jxl/src/entropy_coding/huffman.rs
+++ b/jxl/src/entropy_coding/huffman.rs
@@ -82,7 +82,7 @@ impl Table {
             }
             *symbol = sym as u16;
         }
-        if (0..num_symbols - 1).any(|i| symbols[..i].contains(&symbols[i + 1])) {
+        if (1..num_symbols).any(|i| symbols[..i].contains(&symbols[i])) {
             return Err(Error::InvalidHuffman);
         }
 
-- 
2.43.0


From 03b68004aa92042ee0b18730e725bb9b4acd7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 27/42] fix: do not compute the size of render areas that lie
 outside the image (overflow panic)

---
 jxl/src/render/low_memory_pipeline/group_scheduler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index 322719f..fa4827e 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -113,7 +113,7 @@ fn ready_image_area(
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then_some(Rect {
+    (x1 >= x0 && y1 >= y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
-- 
2.43.0


From cb730ba3bbfde72ccdd3e66830576d592e6a5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 28/42] fix: count undecoded inputs of squeeze steps as zero
 when flushing (panic)

---
 jxl/src/frame/modular/mod.rs             | 16 +++++++++++++++-
 jxl/src/frame/modular/transforms/step.rs |  7 +++++++
 jxl/src/frame/render.rs                  |  2 +-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index 1fba73e..c5af59b 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -734,18 +734,31 @@ impl FullModularImage {
         &mut self,
         frame_header: &FrameHeader,
         mut group_callback: impl FnMut(usize, usize, bool),
-    ) {
+    ) -> Result<()> {
         for t in self.pending_transforms.iter().cloned() {
             // If this will produce output, tell the caller.
             if let Some((g, c)) = self.transform_steps[t].output_info() {
                 group_callback(g, c, self.transform_steps[t].ready_for_final_render());
             }
             let mut has_current_deps = false;
+            let is_squeeze = self.transform_steps[t].is_squeeze();
             // Add dependency edges from *all* the buffers that will be modified and that are used.
             for TransformDependency { buffer, grid, .. } in self.transform_steps[t]
                 .dependencies(&self.buffer_info, frame_header)
                 .iter()
             {
+                let info = &self.buffer_info[*buffer].info;
+                let buf = &self.buffer_info[*buffer].buffer_grid[*grid];
+                // Squeeze steps read their inputs, and the borders of their neighbours, even
+                // if those were not decoded yet: such buffers count as all-0.
+                if is_squeeze
+                    && buf.produced_by_step.is_none()
+                    && buf.data_status == DataStatus::Zero
+                    && !buf.has_buffer()
+                {
+                    buf.ensure_buffer(info)?;
+                    buf.extract_needed_borders()?;
+                }
                 if self.rerendered_buffers.contains(&(*buffer, *grid)) {
                     let buf = &mut self.buffer_info[*buffer].buffer_grid[*grid];
                     // TODO(veluca): account for *non-final* uses here, when we actually
@@ -766,6 +779,7 @@ impl FullModularImage {
         for (s, g) in std::mem::take(&mut *self.delayed_ready_sections.try_lock().unwrap()) {
             self.mark_section_ready(s, g, &mut self.ready_transform_steps.try_lock().unwrap());
         }
+        Ok(())
     }
 
     fn run_transform(
diff --git a/jxl/src/frame/modular/transforms/step.rs b/jxl/src/frame/modular/transforms/step.rs
index 2fd0e10..36eaf88 100644
--- a/jxl/src/frame/modular/transforms/step.rs
+++ b/jxl/src/frame/modular/transforms/step.rs
@@ -915,6 +915,13 @@ impl TransformStepChunk {
         Ok(())
     }
 
+    pub fn is_squeeze(&self) -> bool {
+        matches!(
+            self.step,
+            TransformStep::HSqueeze { .. } | TransformStep::VSqueeze { .. }
+        )
+    }
+
     // Iterates over the list of outputs for this transform.
     // Except for palette, we only output 1 (squeeze) or 3 (RCT) buffers.
     // For non-delta palette, in most cases we output 1, 3 or 4 channels.
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 3c05cd2..f8d49ea 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -367,7 +367,7 @@ impl Frame {
             if should_render_non_final || is_final {
                 pipeline_mut!(self, p, p.mark_group_to_rerender(g));
             }
-        });
+        })?;
 
         let extra_groups_to_vardct_render =
             if should_render_non_final || self.group_status.incomplete_groups == 0 {
-- 
2.43.0


From 1f52b3e21374132bed65a873e69a068d4d34f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 29/42] fix: size row buffers for areas that extend past their
 group (panic)

---
 jxl/src/render/low_memory_pipeline/mod.rs | 44 ++++++++++++-----------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index 780754a..d51dee7 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -49,6 +49,8 @@ impl LowMemoryRenderPipelinePerThread {
             return Ok(());
         }
         let nc = p.shared.num_channels();
+        // The area that becomes ready with a group can extend past it on both sides.
+        let max_area_width = p.shared.chunk_size + 2 * p.border_size.0;
         let mut initial_buffers = vec![];
         for chan in 0..nc {
             initial_buffers.push(RowBuffer::new(
@@ -56,7 +58,7 @@ impl LowMemoryRenderPipelinePerThread {
                 p.next_border_and_cur_downsample[0][chan].0 as usize,
                 0,
                 0,
-                p.shared.chunk_size >> p.shared.channel_info[0][chan].downsample.0,
+                max_area_width.shrc(p.shared.channel_info[0][chan].downsample.0),
             )?);
         }
         self.row_buffers = vec![initial_buffers];
@@ -70,7 +72,7 @@ impl LowMemoryRenderPipelinePerThread {
                     *next_y_border as usize,
                     stage.shift().1 as usize,
                     stage.shift().0 as usize,
-                    p.shared.chunk_size >> *dsx,
+                    max_area_width.shrc(*dsx),
                 )?);
             }
             self.row_buffers.push(stage_buffers);
@@ -223,25 +225,6 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             })
             .collect();
 
-        // Create opaque alpha buffers for save stages that need fill_opaque_alpha
-        let mut opaque_alpha_buffers = vec![];
-        for (i, stage) in shared.stages.iter().enumerate() {
-            if let Stage::Save(s) = stage {
-                if s.fill_opaque_alpha {
-                    let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = shared.chunk_size >> dx;
-                    let fill_pattern = s.data_format.opaque_alpha_bytes();
-                    let buf =
-                        RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
-                    opaque_alpha_buffers.push(Some(buf));
-                } else {
-                    opaque_alpha_buffers.push(None);
-                }
-            } else {
-                opaque_alpha_buffers.push(None);
-            }
-        }
-
         let default_channels: Vec<usize> = (0..nc).collect();
         for (s, ibi) in stage_input_buffer_index.iter_mut().enumerate() {
             let mut filtered = vec![];
@@ -289,6 +272,25 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 .max(border_pixels_per_stage[s].1 << downsampling_for_stage[s].1);
         }
 
+        // Create opaque alpha buffers for save stages that need fill_opaque_alpha
+        let mut opaque_alpha_buffers = vec![];
+        for (i, stage) in shared.stages.iter().enumerate() {
+            if let Stage::Save(s) = stage {
+                if s.fill_opaque_alpha {
+                    let (dx, _dy) = downsampling_for_stage[i];
+                    let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
+                    let fill_pattern = s.data_format.opaque_alpha_bytes();
+                    let buf =
+                        RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
+                    opaque_alpha_buffers.push(Some(buf));
+                } else {
+                    opaque_alpha_buffers.push(None);
+                }
+            } else {
+                opaque_alpha_buffers.push(None);
+            }
+        }
+
         Ok(Self {
             input_buffers: InputBuffers::new(nc, shared.group_count)?,
             stage_input_buffer_index,
-- 
2.43.0


From cdfdc795ce3ca81d6a1ee7d6d6f0b66c6c73c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 30/42] fix: noise of frames reached by seeking did not match
 sequential decoding

---
 jxl/src/api/decoder.rs                         |  3 +++
 .../api/inner/codestream_parser/frame_info.rs  |  7 ++++++-
 .../inner/codestream_parser/frame_scan_info.rs | 10 +++++++++-
 jxl/src/api/inner/codestream_parser/mod.rs     | 18 ++++++++++++++++++
 jxl/src/api/inner/mod.rs                       |  1 +
 5 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/jxl/src/api/decoder.rs b/jxl/src/api/decoder.rs
index 4484497..7dc7fcc 100644
--- a/jxl/src/api/decoder.rs
+++ b/jxl/src/api/decoder.rs
@@ -72,6 +72,9 @@ pub struct VisibleFrameSeekTarget {
     /// Number of visible frames to skip after seek-start before decoding the
     /// requested target frame.
     pub visible_frames_to_skip: usize,
+    /// Number of visible frames before the frame decoding starts at, and number
+    /// of non-visible frames since the last of those. Noise depends on them.
+    pub frame_counts_before: (usize, usize),
 }
 
 impl<S: JxlState> JxlDecoder<S> {
diff --git a/jxl/src/api/inner/codestream_parser/frame_info.rs b/jxl/src/api/inner/codestream_parser/frame_info.rs
index 0caa768..5251f81 100644
--- a/jxl/src/api/inner/codestream_parser/frame_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_info.rs
@@ -187,6 +187,7 @@ impl FrameInfo {
         pixel_format: &JxlPixelFormat,
         output_profile: &JxlColorProfile,
         process_mode: ProcessMode,
+        frame_counts: (usize, usize),
     ) -> Result<()> {
         self.section_size = toc.entries.iter().map(|x| *x as usize).sum();
         self.ready_section_data = 0;
@@ -203,13 +204,17 @@ impl FrameInfo {
             // We finalize the previous frame here to allow progressive rendering
             // to work properly if a flush is requested while we parse a frame
             // header.
-            let decoder_state = self
+            let mut decoder_state = self
                 .frame
                 .take()
                 .map(|x| x.finalize())
                 .transpose()?
                 .flatten()
                 .unwrap_or_else(|| DecoderState::new(file_header.clone(), decode_options));
+            (
+                decoder_state.visible_frame_index,
+                decoder_state.nonvisible_frame_index,
+            ) = frame_counts;
             let mut frame =
                 Frame::from_header_and_toc(self.frame_header.take().unwrap(), toc, decoder_state)?;
 
diff --git a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
index 3b48f61..bb49270 100644
--- a/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
+++ b/jxl/src/api/inner/codestream_parser/frame_scan_info.rs
@@ -13,6 +13,7 @@ use crate::headers::frame_header::FrameHeader;
 struct FrameStartInfo {
     box_parser_checkpoint: BoxParserCheckpoint,
     visible_count_before: usize,
+    frame_counts_before: (usize, usize),
 }
 
 pub(super) struct FrameScanInfo {
@@ -56,7 +57,12 @@ impl FrameScanInfo {
 
     /// Record frame info for the just-parsed frame.
     /// Called after process_non_section() creates a Frame, for frame scanning.
-    pub(super) fn record(&mut self, header: &FrameHeader, animation: &Option<Animation>) {
+    pub(super) fn record(
+        &mut self,
+        header: &FrameHeader,
+        animation: &Option<Animation>,
+        frame_counts_before: (usize, usize),
+    ) {
         let Some(box_parser_checkpoint) = self.current_frame_box_parser_checkpoint else {
             return;
         };
@@ -66,6 +72,7 @@ impl FrameScanInfo {
         self.frame_starts.push(FrameStartInfo {
             box_parser_checkpoint,
             visible_count_before: self.visible_frame_index,
+            frame_counts_before,
         });
 
         let mut decode_start_frame_index = current_frame_index;
@@ -145,6 +152,7 @@ impl FrameScanInfo {
                 visible_frames_to_skip: self
                     .visible_frame_index
                     .saturating_sub(decode_start.visible_count_before),
+                frame_counts_before: decode_start.frame_counts_before,
             };
             let is_keyframe = seek_target.visible_frames_to_skip == 0;
 
diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index a7a95f0..c588d54 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -106,6 +106,10 @@ pub(super) struct CodestreamParser {
     /// Set via `start_new_frame` when seeking to a non-keyframe.
     visible_frames_to_skip: usize,
 
+    /// Number of visible frames before the current frame, and number of
+    /// non-visible frames since the last of those.
+    frame_counts: (usize, usize),
+
     #[cfg(test)]
     pub frame_callback: Option<Box<FrameCallback>>,
 }
@@ -121,6 +125,7 @@ impl CodestreamParser {
             header_needed_bytes: None,
             frame_info: FrameInfo::new(),
             visible_frames_to_skip: 0,
+            frame_counts: (0, 0),
             frame_scan_info: FrameScanInfo::new(),
             file_length: None,
             #[cfg(test)]
@@ -136,12 +141,14 @@ impl CodestreamParser {
     pub(super) fn start_new_frame(
         &mut self,
         visible_frames_to_skip: usize,
+        frame_counts: (usize, usize),
         consumed_codestream: u64,
     ) {
         self.frame_info.clear(true);
         self.local_buffer = SmallBuffer::new(4096);
         self.local_buffer.mark_consumed(consumed_codestream);
         self.visible_frames_to_skip = visible_frames_to_skip;
+        self.frame_counts = frame_counts;
         self.state = ParserState::FrameHeader { is_preview: false };
         self.header_needed_bytes = None;
     }
@@ -282,11 +289,14 @@ impl CodestreamParser {
                         process_mode,
                     };
 
+                    let is_visible = self.frame_info.current_frame_header().unwrap().is_visible();
+
                     // Record frame for seeking purposes
                     if !is_preview {
                         self.frame_scan_info.record(
                             self.frame_info.current_frame_header().unwrap(),
                             &self.image_info.file_header().image_metadata.animation,
+                            self.frame_counts,
                         );
                     }
 
@@ -298,8 +308,16 @@ impl CodestreamParser {
                         self.pixel_format.as_ref().unwrap(),
                         self.output_color_profile.as_ref().unwrap(),
                         process_mode,
+                        self.frame_counts,
                     )?;
 
+                    if !is_preview {
+                        self.frame_counts = match (is_visible, self.frame_counts) {
+                            (true, (visible, _)) => (visible + 1, 0),
+                            (false, (visible, nonvisible)) => (visible, nonvisible + 1),
+                        };
+                    }
+
                     if !matches!(process_mode, ProcessMode::Skip(..)) {
                         self.frame_info.dequeue_ready_sections();
                     }
diff --git a/jxl/src/api/inner/mod.rs b/jxl/src/api/inner/mod.rs
index db61cd1..8479a23 100644
--- a/jxl/src/api/inner/mod.rs
+++ b/jxl/src/api/inner/mod.rs
@@ -110,6 +110,7 @@ impl JxlDecoderInner {
             .reset_to_checkpoint(seek_target.box_parser_checkpoint);
         self.codestream_parser.start_new_frame(
             seek_target.visible_frames_to_skip,
+            seek_target.frame_counts_before,
             seek_target.box_parser_checkpoint.consumed_codestream,
         );
     }
-- 
2.43.0


From f1013ac03480a0324e7cc9a989987792ddca829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 31/42] fix: read and write half-precision subnormals with the
 right exponent

Subnormal half floats (custom matrices and weights, tone mapping) were
read as half their value, as the copy of this type in jxl_simd already
does correctly.
---
 jxl/src/util/float16.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jxl/src/util/float16.rs b/jxl/src/util/float16.rs
index 711c37c..13bb42d 100644
--- a/jxl/src/util/float16.rs
+++ b/jxl/src/util/float16.rs
@@ -54,7 +54,8 @@ impl f16 {
                     e += 1;
                 }
                 m &= 0x3FF; // Remove the implicit leading 1
-                let new_exp = 127 - 15 - e; // Rebias: f16 bias=15, f32 bias=127
+                // f16 denormal exponent is -14 (not -15), adjust by shift count
+                let new_exp = 127 - 14 - e;
                 (sign << 31) | (new_exp << 23) | (m << 13)
             }
         } else if exp == 31 {
@@ -98,13 +99,22 @@ impl f16 {
         } else {
             let unbiased = exp - 127;
 
-            if unbiased < -24 {
+            if unbiased < -25 {
                 // Too small, underflow to zero
                 sign << 15
             } else if unbiased < -14 {
                 // Denormal f16
-                let shift = (-14 - unbiased) as u32;
-                let m = ((mant | 0x0080_0000) >> (shift + 14)) as u16;
+                let shift = (-14 - unbiased + 13) as u32;
+                let full = mant | 0x0080_0000;
+                let m = (full >> shift) as u16;
+                // Round to nearest, ties to even
+                let round_bit = (full >> (shift - 1)) & 1;
+                let sticky = full & ((1 << (shift - 1)) - 1);
+                let m = if round_bit == 1 && (sticky != 0 || (m & 1) == 1) {
+                    m + 1
+                } else {
+                    m
+                };
                 (sign << 15) | m
             } else if unbiased > 15 {
                 // Overflow to infinity
-- 
2.43.0


From 6da14d1639d01b4289d5657bbe4a73a57e7690df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 32/42] fix: check the final state of the entropy coder of a
 permuted table of contents

A permutation whose ANS stream does not end in the required state, or
whose values overflowed, was accepted.
---
 jxl/src/headers/encodings.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jxl/src/headers/encodings.rs b/jxl/src/headers/encodings.rs
index 6823063..6952f49 100644
--- a/jxl/src/headers/encodings.rs
+++ b/jxl/src/headers/encodings.rs
@@ -187,7 +187,10 @@ impl UnconditionalCoder<()> for Permutation {
             let num_contexts = 8;
             let histograms = Histograms::decode(num_contexts, br, /*allow_lz77=*/ true)?;
             let mut reader = SymbolReader::new(&histograms, br, None)?;
-            Permutation::decode(size, 0, &histograms, br, &mut reader)
+            Permutation::decode(size, 0, &histograms, br, &mut reader).and_then(|permutation| {
+                reader.check_final_state(&histograms, br)?;
+                Ok(permutation)
+            })
         } else {
             Ok(Permutation::default())
         };
-- 
2.43.0


From 6ff01ef80883102633388a10513754cdaba931bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 33/42] fix: check the final state of the entropy coder of the
 patch dictionary

A dictionary whose ANS stream does not end in the required state was
accepted.
---
 jxl/src/features/patches.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jxl/src/features/patches.rs b/jxl/src/features/patches.rs
index 99c93bd..5617aed 100644
--- a/jxl/src/features/patches.rs
+++ b/jxl/src/features/patches.rs
@@ -623,6 +623,7 @@ impl PatchesDictionary {
                 ysize: ref_pos_ysize,
             })
         }
+        patches_reader.check_final_state(&patches_histograms, br)?;
 
         let mut patches_dict = PatchesDictionary {
             positions,
-- 
2.43.0


From 1d3e34e087f8e680c1aeb2955fc9dc2690249f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 34/42] fix: refuse images with more samples than the limit,
 not ones with as many

---
 jxl/src/api/inner/codestream_parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jxl/src/api/inner/codestream_parser/mod.rs b/jxl/src/api/inner/codestream_parser/mod.rs
index c588d54..4d2dee3 100644
--- a/jxl/src/api/inner/codestream_parser/mod.rs
+++ b/jxl/src/api/inner/codestream_parser/mod.rs
@@ -61,7 +61,7 @@ fn check_size_limit(
     if let Some(limit) = pixel_limit {
         let xs = xs.max(16); // xsize is always at least 64 bytes.
         let total_pixels = xs.saturating_mul(ys).saturating_mul(3 + num_ec);
-        if total_pixels >= limit {
+        if total_pixels > limit {
             return Err(Error::ImageSizeTooLarge(xs, ys));
         }
     };
-- 
2.43.0


From 266b51e5d76f09add5287621ecfb7e057cbf91e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 35/42] fix: do not panic on noise when no color output is
 requested

---
 jxl/src/frame/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jxl/src/frame/decode.rs b/jxl/src/frame/decode.rs
index 6ba1d1c..cf4a895 100644
--- a/jxl/src/frame/decode.rs
+++ b/jxl/src/frame/decode.rs
@@ -585,6 +585,11 @@ impl Frame {
         // TODO(veluca): SIMD.
         let num_channels = self.header.num_extra_channels as usize + 3;
 
+        // Noise is only added to color channels: there is nothing to do if those are not needed.
+        if !pipeline!(self, p, p.used_channel_mask()[num_channels]) {
+            return Ok(());
+        }
+
         let group_dim = self.header.group_dim() as u32;
         let xsize_groups = self.header.size_groups().0;
         let gx = (group % xsize_groups) as u32;
-- 
2.43.0


From a7362430b09d11f849b27b450b652fa99f23eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 36/42] fix: premultiply all channels when gray images are
 output as RGBA

---
 jxl/src/frame/render.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index f8d49ea..cb4f110 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -856,11 +856,17 @@ impl Frame {
                     (false, Some(c)) => &[0, 1, 2, c],
                 };
             if let Some(df) = &pixel_format.color_data_format {
+                // Gray images are output as RGB by repeating their channel.
+                let num_output_colors = if pixel_format.color_type.is_grayscale() {
+                    1
+                } else {
+                    3
+                };
                 // Add premultiply stage if needed (before conversion to output format)
                 if should_premultiply && let Some(alpha_channel) = alpha_in_color {
                     pipeline = pipeline.add_inplace_stage(PremultiplyAlphaStage::new(
                         0,
-                        num_color_channels,
+                        num_output_colors,
                         alpha_channel,
                     ));
                 }
-- 
2.43.0


From cb326965d7d70326deaea41885652435e4fcf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 37/42] fix: convert the right rows outside of frames smaller
 than the image

---
 .../render/low_memory_pipeline/render_group.rs   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/render_group.rs b/jxl/src/render/low_memory_pipeline/render_group.rs
index 4f28744..1d49b07 100644
--- a/jxl/src/render/low_memory_pipeline/render_group.rs
+++ b/jxl/src/render/low_memory_pipeline/render_group.rs
@@ -516,18 +516,20 @@ impl LowMemoryRenderPipeline {
         let y0 = yrange.start;
         let xsize = xrange.clone().count();
         let ysize = yrange.clone().count();
+        let extend = self.shared.extend_stage_index.unwrap();
+        let Stage::Extend(extend_stage) = &self.shared.stages[extend] else {
+            unreachable!("extend stage is not an extend stage");
+        };
+        // Rows are those of the image here, and not those of the frame.
+        let image_height = extend_stage.image_size.1;
         // Significantly simplified version of render_group.
         for y in yrange.clone() {
-            let extend = self.shared.extend_stage_index.unwrap();
             // Step 1: get padding from extend stage.
             for c in 0..num_channels {
                 let (si, ci) = self.stage_input_buffer_index[extend][c];
                 let buffer = &mut data.row_buffers[si][ci];
-                let Stage::Extend(extend) = &self.shared.stages[extend] else {
-                    unreachable!("extend stage is not an extend stage");
-                };
                 let row = &mut buffer.get_row_mut(y)[RowBuffer::x0_offset::<f32>()..];
-                extend.process_row_chunk((x0, y), xsize, c, row);
+                extend_stage.process_row_chunk((x0, y), xsize, c, row);
             }
             // Step 2: go through remaining stages one by one.
             for (i, stage) in self.shared.stages.iter().enumerate().skip(extend + 1) {
@@ -547,7 +549,7 @@ impl LowMemoryRenderPipeline {
                                 out_extra_x: 0,
                                 start_of_row: false,
                                 end_of_row: false,
-                                image_height: self.shared.input_size.1,
+                                image_height,
                             },
                             &mut buffers,
                             data.local_states[i].as_deref_mut(),
@@ -593,7 +595,7 @@ impl LowMemoryRenderPipeline {
                                 out_extra_x: 0,
                                 start_of_row: false,
                                 end_of_row: false,
-                                image_height: self.shared.input_size.1,
+                                image_height,
                             },
                             &input_data,
                             &mut outb[0][..],
-- 
2.43.0


From 7f416440c8607a25529f5cc31e0ecf2dea488606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 38/42] fix: do not panic when no output is requested

---
 jxl/src/render/low_memory_pipeline/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index d51dee7..c5def9f 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -202,7 +202,11 @@ impl RenderPipeline for LowMemoryRenderPipeline {
         }
         border_pixels_per_stage.reverse();
 
-        assert!(border_pixels_per_stage[0].0 <= MAX_BORDER);
+        assert!(
+            border_pixels_per_stage
+                .first()
+                .is_none_or(|b| b.0 <= MAX_BORDER)
+        );
 
         let downsampling_for_stage: Vec<_> = shared
             .stages
-- 
2.43.0


From 81bf20ee5079eb8db6f0c9cb7a1b2b7b86e14456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 39/42] fix: write opaque alpha in the requested byte order

---
 jxl/src/api/data_types.rs                 | 14 ++++++++++++++
 jxl/src/render/low_memory_pipeline/mod.rs |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/jxl/src/api/data_types.rs b/jxl/src/api/data_types.rs
index 01c88f7..4c84e6c 100644
--- a/jxl/src/api/data_types.rs
+++ b/jxl/src/api/data_types.rs
@@ -110,6 +110,20 @@ impl JxlDataFormat {
         }
     }
 
+    /// Returns the same format, with samples in native byte order.
+    pub(crate) fn to_native_endianness(self) -> Self {
+        let endianness = Endianness::native();
+        match self {
+            JxlDataFormat::U8 { .. } => self,
+            JxlDataFormat::U16 { bit_depth, .. } => JxlDataFormat::U16 {
+                endianness,
+                bit_depth,
+            },
+            JxlDataFormat::F16 { .. } => JxlDataFormat::F16 { endianness },
+            JxlDataFormat::F32 { .. } => JxlDataFormat::F32 { endianness },
+        }
+    }
+
     /// Returns the byte representation of opaque alpha (1.0) for this format.
     pub(crate) fn opaque_alpha_bytes(&self) -> Vec<u8> {
         match self {
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index c5def9f..f5fc92e 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -283,7 +283,8 @@ impl RenderPipeline for LowMemoryRenderPipeline {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
                     let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
-                    let fill_pattern = s.data_format.opaque_alpha_bytes();
+                    // Row buffers are in native byte order; bytes are swapped when saving.
+                    let fill_pattern = s.data_format.to_native_endianness().opaque_alpha_bytes();
                     let buf =
                         RowBuffer::new_filled(s.data_format.data_type(), row_len, &fill_pattern)?;
                     opaque_alpha_buffers.push(Some(buf));
-- 
2.43.0


From 1bbf5cd2791ff184b586af36f8eae2b3b5d75ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 40/42] fix: draw last columns of groups narrower than two
 borders with their left neighbours

Areas that ended less than a border before the right edge of the image read
undefined pixels past that edge, so pictures depended on the order in which
groups were decoded.
---
 .../low_memory_pipeline/group_scheduler.rs    | 39 +++++++++++++------
 jxl/src/render/low_memory_pipeline/mod.rs     | 11 ++++--
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/jxl/src/render/low_memory_pipeline/group_scheduler.rs b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
index fa4827e..bb58203 100644
--- a/jxl/src/render/low_memory_pipeline/group_scheduler.rs
+++ b/jxl/src/render/low_memory_pipeline/group_scheduler.rs
@@ -80,40 +80,57 @@ fn ready_image_area(
     yrange: Range<u8>,
 ) -> Option<Rect> {
     let (gx, gy) = group_position;
+
+    // An area that ends less than a border before the right edge of the image would depend
+    // on pixels past that edge, but only areas that reach the edge have those. Thus, if the last
+    // column of groups is too narrow, all of it belongs to the area along its left side.
+    let is_last_column = |gx: usize| gx + 1 == group_count.0;
+    let left_side_end = |origin: usize, gx: usize| {
+        if is_last_column(gx) && input_size.0 - origin < 2 * border_size.0 {
+            input_size.0
+        } else {
+            origin + border_size.0
+        }
+    };
+    let top_end = (group_rect.origin.1 + border_size.1).min(group_rect.end().1);
+    let bottom_start = (group_rect.end().1 - border_size.1.min(group_rect.end().1)).max(top_end);
+    let left_end = left_side_end(group_rect.origin.0, gx);
+    let right_start = (group_rect.end().0 - border_size.0.min(group_rect.end().0)).max(left_end);
+
     let y0 = match (gy == 0, yrange.start) {
         (true, 0) => group_rect.origin.1,
         (false, 0) => group_rect.origin.1 - border_size.1,
-        (_, 1) => group_rect.origin.1 + border_size.1,
+        (_, 1) => top_end,
         // (_, 2)
-        _ => group_rect.end().1 - border_size.1,
+        _ => bottom_start,
     };
     let x0 = match (gx == 0, xrange.start) {
         (true, 0) => group_rect.origin.0,
         (false, 0) => group_rect.origin.0 - border_size.0,
-        (_, 1) => group_rect.origin.0 + border_size.0,
+        (_, 1) => left_end,
         // (_, 2)
-        _ => group_rect.end().0 - border_size.0,
+        _ => right_start,
     };
 
     let y1 = match (gy + 1 == group_count.1, yrange.end) {
         (true, 3) => group_rect.end().1,
         (false, 3) => group_rect.end().1 + border_size.1,
-        (_, 2) => group_rect.end().1 - border_size.1,
+        (_, 2) => bottom_start,
         // (_, 1)
-        _ => group_rect.origin.1 + border_size.1,
+        _ => top_end,
     }
     .min(input_size.1);
 
-    let x1 = match (gx + 1 == group_count.0, xrange.end) {
+    let x1 = match (is_last_column(gx), xrange.end) {
         (true, 3) => group_rect.end().0,
-        (false, 3) => group_rect.end().0 + border_size.0,
-        (_, 2) => group_rect.end().0 - border_size.0,
+        (false, 3) => left_side_end(group_rect.end().0, gx + 1),
+        (_, 2) => right_start,
         // (_, 1)
-        _ => group_rect.origin.0 + border_size.0,
+        _ => left_end,
     }
     .min(input_size.0);
 
-    (x1 >= x0 && y1 >= y0).then(|| Rect {
+    (x1 > x0 && y1 > y0).then(|| Rect {
         origin: (x0, y0),
         size: (x1 - x0, y1 - y0),
     })
diff --git a/jxl/src/render/low_memory_pipeline/mod.rs b/jxl/src/render/low_memory_pipeline/mod.rs
index f5fc92e..5a98f00 100644
--- a/jxl/src/render/low_memory_pipeline/mod.rs
+++ b/jxl/src/render/low_memory_pipeline/mod.rs
@@ -49,8 +49,7 @@ impl LowMemoryRenderPipelinePerThread {
             return Ok(());
         }
         let nc = p.shared.num_channels();
-        // The area that becomes ready with a group can extend past it on both sides.
-        let max_area_width = p.shared.chunk_size + 2 * p.border_size.0;
+        let max_area_width = max_area_width(p.shared.chunk_size, p.border_size.0);
         let mut initial_buffers = vec![];
         for chan in 0..nc {
             initial_buffers.push(RowBuffer::new(
@@ -87,6 +86,12 @@ impl LowMemoryRenderPipelinePerThread {
     }
 }
 
+// The area that becomes ready with a group can extend past it on both sides, on the right also
+// by a whole group that is narrower than two borders.
+fn max_area_width(chunk_size: usize, border: usize) -> usize {
+    chunk_size + 3 * border
+}
+
 pub struct LowMemoryRenderPipeline {
     shared: RenderPipelineShared<RowBuffer>,
     per_thread_data: PerThreadStorage<LowMemoryRenderPipelinePerThread>,
@@ -282,7 +287,7 @@ impl RenderPipeline for LowMemoryRenderPipeline {
             if let Stage::Save(s) = stage {
                 if s.fill_opaque_alpha {
                     let (dx, _dy) = downsampling_for_stage[i];
-                    let row_len = (shared.chunk_size + 2 * border_size.0).shrc(dx);
+                    let row_len = max_area_width(shared.chunk_size, border_size.0).shrc(dx);
                     // Row buffers are in native byte order; bytes are swapped when saving.
                     let fill_pattern = s.data_format.to_native_endianness().opaque_alpha_bytes();
                     let buf =
-- 
2.43.0


From fd69ab8d6097949f62d80520805a3dd500307f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 41/42] fix: when flushing, render all channels of groups of
 which some channels became final

The noise of such groups was rendered without their other channels, and rendered
again by the next flush (panic).
---
 jxl/src/frame/modular/mod.rs | 7 +++++++
 jxl/src/frame/render.rs      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/jxl/src/frame/modular/mod.rs b/jxl/src/frame/modular/mod.rs
index c5af59b..dd758c9 100644
--- a/jxl/src/frame/modular/mod.rs
+++ b/jxl/src/frame/modular/mod.rs
@@ -688,6 +688,13 @@ impl FullModularImage {
         }
     }
 
+    /// Groups for which some channel will be produced by the currently pending transforms.
+    pub fn groups_with_pending_output(&self) -> impl Iterator<Item = usize> + '_ {
+        self.pending_transforms
+            .iter()
+            .filter_map(|t| self.transform_steps[*t].output_info().map(|(g, _)| g))
+    }
+
     // Should only be called after *all* calls to mark_final for this round of rendering are done.
     pub fn request_rerender(&mut self, frame_header: &FrameHeader, group: usize) {
         assert!(self.can_do_partial_render());
diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index cb4f110..4998a23 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -250,6 +250,13 @@ impl Frame {
             }
         }
 
+        // New data for a group can also finalize channels of its neighbours, without
+        // necessarily finalizing all of their channels. Such groups are going to be given
+        // to the pipeline again, so they need *all* of their channels when flushing.
+        self.group_status
+            .need_modular_flush
+            .extend(modular_global.groups_with_pending_output());
+
         // STEP 2: mark all the groups that will need a progressive re-render if
         // we are flushing.
 
-- 
2.43.0


From 6f449c64b6f1c5fc49975a1b88e8f1b9fa6a2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 42/42] fix: report pixels of skip-progressive frames as drawn
 by a flush

---
 jxl/src/frame/render.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jxl/src/frame/render.rs b/jxl/src/frame/render.rs
index 4998a23..5432a65 100644
--- a/jxl/src/frame/render.rs
+++ b/jxl/src/frame/render.rs
@@ -502,7 +502,11 @@ impl Frame {
             .validate_state_after_transforms();
 
         let regions = buffer_splitter.into_changed_regions();
-        let rendered = !regions.is_empty() && self.header.frame_type == FrameType::RegularFrame;
+        let rendered = !regions.is_empty()
+            && matches!(
+                self.header.frame_type,
+                FrameType::RegularFrame | FrameType::SkipProgressive
+            );
 
         self.reference_frame_data = reference_frame_data;
         self.lf_frame_data = lf_frame_data;
-- 
2.43.0

