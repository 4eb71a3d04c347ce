From b951289fe16e8d8c8cea0b2d8f727418a028cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 01/32] fix: do not store AC values which overflow the 6 value
 bits of the fast AC table

---
 src/huffman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..4270e98 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -246,7 +246,8 @@ impl HuffmanTable
                         };
 
                         // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // (the top 6 bits of an i16, everything else would overflow the shift)
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From eb1f4cba497cba0e52255488a69e87620f9d12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 02/32] fix: refill before every DC coefficient, code and
 magnitude may need 31 bits

---
 src/bitstream.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..25f899a 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -275,10 +275,8 @@ impl BitStream
     {
         let (mut symbol, r);
 
-        if self.bits_left < 16
-        {
-            self.refill(reader)?;
-        };
+        // A DC coefficient may need 16 bits for the code and 15 for the magnitude
+        self.refill(reader)?;
         // look a head HUFF_LOOKAHEAD bits into the bitstream
         symbol = self.peek_bits::<HUFF_LOOKAHEAD>();
         symbol = dc_table.lookup[symbol as usize];
-- 
2.43.0


From 7d2cc1bc6ea519f4e6016169fe072b77ccac9719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 03/32] fix: use the color conversion routine of the requested
 output colorspace

---
 src/decoder.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..1d865e2 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -422,6 +422,8 @@ impl Decoder
         let mut buf = buf;
 
         self.decode_headers_internal(&mut buf)?;
+        // the output colorspace is only final after headers have been parsed
+        self.set_color_convert()?;
 
         if self.is_progressive
         {
@@ -464,6 +466,29 @@ impl Decoder
         Decoder::default(options)
     }
 
+    /// Choose the color convert routine matching the output colorspace
+    fn set_color_convert(&mut self) -> Result<(), DecodeErrors>
+    {
+        match self.options.get_out_colorspace()
+        {
+            // these do not need a conversion routine
+            ColorSpace::GRAYSCALE | ColorSpace::YCbCr =>
+            {}
+            colorspace =>
+            {
+                self.color_convert_16 =
+                    choose_ycbcr_to_rgb_convert_func(colorspace, self.options.get_use_unsafe())
+                        .ok_or_else(|| {
+                            DecodeErrors::Format(format!(
+                                "Unsupported output colorspace {:?}",
+                                colorspace
+                            ))
+                        })?;
+            }
+        }
+        Ok(())
+    }
+
     /// Set up-sampling routines in case an image is down sampled
     pub(crate) fn set_upsampling(&mut self) -> Result<(), DecodeErrors>
     {
-- 
2.43.0


From fa93a8a2b12b3352804b35e2850880dd9a79979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 04/32] fix: convert every pixel of a row when its width is not
 a multiple of 16

---
 src/color_convert/sse.rs |   2 +-
 src/worker.rs            | 104 +++++++++++----------------------------
 2 files changed, 29 insertions(+), 77 deletions(-)

diff --git a/src/color_convert/sse.rs b/src/color_convert/sse.rs
index 0c28369..b06c9d4 100644
--- a/src/color_convert/sse.rs
+++ b/src/color_convert/sse.rs
@@ -271,7 +271,7 @@ pub fn ycbcr_to_rgb_sse_16(
 )
 {
     // check if out has enough space
-    out.get_mut(*offset..*offset + 64)
+    out.get_mut(*offset..*offset + 48)
         .expect("Slice to small cannot write");
     unsafe {
         ycbcr_to_rgb_16(y, cb, cr, out, offset);
diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..3db518d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -150,59 +150,24 @@ fn color_convert_ycbcr(
     let width_chunk = mcu_chunks >> 3;
     let stride = width * output_colorspace.num_components();
 
-    let mut start = 0;
-    let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
+    // Temporary buffer for pixels at the end of a row which do not fill a chunk of 16
+    let mut temp = vec![0; 16 * output_colorspace.num_components()];
 
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
-    for ((y_width, cb_width), cr_width) in mcu_block[0]
+    for (((y_width, cb_width), cr_width), out) in mcu_block[0]
         .chunks_exact(width_chunk)
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
+        .zip(output.chunks_exact_mut(stride))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
-
         let mut position = 0;
-        let out = &mut output[start..end];
-
-        if width < 16
-        {
-            // allocate temporary buffers for the values received from idct
-            let mut y_out = [0; 16];
-            let mut cb_out = [0; 16];
-            let mut cr_out = [0; 16];
-            // copy those small widths to that buffer
-            y_out[0..y_width.len()].copy_from_slice(y_width);
-            cb_out[0..cb_width.len()].copy_from_slice(cb_width);
-            cr_out[0..cr_width.len()].copy_from_slice(cr_width);
-            // we handle widths less than 16 a bit differently, allocating a temporary
-            // buffer and writing to that and then flushing to the out buffer
-            // because of the optimizations applied below,
-            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
-            // copy to stride
-            out[position..position + width * output_colorspace.num_components()]
-                .copy_from_slice(&temp[0..width * output_colorspace.num_components()]);
-            // increment position
-            start += stride;
-            end += stride;
-            // next
-            continue;
-        }
 
         // Chunk in outputs of 16 to pass to color_convert as an array of 16 i16's.
-        for ((y, cb), cr) in y_width
+        for ((y, cb), cr) in y_width[..width]
             .chunks_exact(16)
-            .zip(cb_width.chunks_exact(16))
-            .zip(cr_width.chunks_exact(16))
-            .take(elements)
+            .zip(cb_width[..width].chunks_exact(16))
+            .zip(cr_width[..width].chunks_exact(16))
         {
             (color_convert_16)(
                 y.try_into().unwrap(),
@@ -213,39 +178,26 @@ fn color_convert_ycbcr(
             );
         }
 
-        // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
-
-        start += stride;
-        end += stride;
+        // we may have more pixels in the end that can't be handled by the main loop.
+        // color convert them into a temporary buffer and copy those that are needed.
+        let remainder = width % 16;
+
+        if remainder != 0
+        {
+            let from = width - remainder;
+
+            let mut y_out = [0; 16];
+            let mut cb_out = [0; 16];
+            let mut cr_out = [0; 16];
+
+            y_out[..remainder].copy_from_slice(&y_width[from..width]);
+            cb_out[..remainder].copy_from_slice(&cb_width[from..width]);
+            cr_out[..remainder].copy_from_slice(&cr_width[from..width]);
+
+            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
+
+            let tail = &mut out[position..];
+            tail.copy_from_slice(&temp[..tail.len()]);
+        }
     }
 }
-- 
2.43.0


From 7ac46ff59d5d9c7236fab90c26d70fc48ed2a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 05/32] fix: use the padded component width when extracting
 grayscale pixels

---
 src/color_convert/scalar.rs | 10 ++++------
 src/worker.rs               |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index a5de15e..4ecfe56 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -88,15 +88,13 @@ pub fn ycbcr_to_rgb_16_scalar(
     *pos += 48;
 }
 
-pub fn ycbcr_to_grayscale(y: &[i16], width: usize, output: &mut [u8])
+/// Copy the luminance channel to output
+///
+/// `width_chunk` is the width of a row in `y`, including fill bytes.
+pub fn ycbcr_to_grayscale(y: &[i16], width: usize, width_chunk: usize, output: &mut [u8])
 {
     // Convert i16's to u8's
     let temp_output = y.iter().map(|x| *x as u8).collect::<Vec<u8>>();
-    // chunk according to width.
-
-    let width_mcu = y.len() / width;
-
-    let width_chunk = y.len() / width_mcu;
 
     let mut start = 0;
 
diff --git a/src/worker.rs b/src/worker.rs
index 3db518d..ad8db9c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -114,7 +114,7 @@ pub(crate) fn post_process_inner(
     {
         (ColorSpace::YCbCr | ColorSpace::GRAYSCALE, ColorSpace::GRAYSCALE) =>
         {
-            ycbcr_to_grayscale(&unprocessed[0], width, output);
+            ycbcr_to_grayscale(&unprocessed[0], width, component_data[0].width_stride, output);
         }
 
         (ColorSpace::YCbCr, ColorSpace::YCbCr) =>
-- 
2.43.0


From a05fa2101f4a02b24efacdb09aee65ae968fbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 06/32] fix: clamp DC only blocks in the scalar IDCT

---
 src/idct/scalar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..3035b8c 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -45,7 +45,8 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                let value = ((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128;
+                let coeff = [clamp(i32::from(value)); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From ea6d426e7171fa91ba7fd30234ce630d43dc4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 07/32] fix: do not assume coefficients are 16 byte aligned in
 the AVX2 IDCT

---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..3dcdedb 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
-- 
2.43.0


From 16a7d1a6839522c219ad8180035fc091917817d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 08/32] fix: run the AVX2 IDCT passes in the order of the
 scalar code so results are identical

---
 src/idct/avx2.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index 3dcdedb..370d6d8 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -330,24 +330,24 @@ unsafe fn dequantize_and_idct_int_avx2(
                 };
             }
 
+            // process columns, same order as the scalar code as the intermediate rounding depends
+            // on it.
+            dct_pass!(512, 10);
+
             transpose(
                 &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
                 &mut row7,
             );
 
             // Process rows
-            dct_pass!(512, 10);
+            dct_pass!(SCALE_BITS, 17);
 
+            // transpose to original
             transpose(
                 &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
                 &mut row7,
             );
 
-            // process columns
-            dct_pass!(SCALE_BITS, 17);
-
-            // transpose to original
-
             // Pack i32 to i16's,
             // clamp them to be between 0-255
             // Undo shuffling
-- 
2.43.0


From 23074d76c0bfa1999fdfeff615f29118331d6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:26 +0000
Subject: [PATCH 09/32] fix: use the right neighbours for the last pixels of
 horizontal upsampling

---
 src/upsampler/scalar.rs | 2 +-
 src/upsampler/sse.rs    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a932b00..3e666fa 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -52,7 +52,7 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
     let i_last: &[i16; 2] = input.get(input_len..).unwrap().try_into().unwrap();
 
     // write out manually..
-    f_out[0] = (3 * i_last[0] + i_last[1] + 2) >> 2;
+    f_out[0] = (3 * i_last[1] + i_last[0] + 2) >> 2;
 
     f_out[1] = i_last[1];
 
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index fc2feb3..0a420c8 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -120,13 +120,13 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[2] = (input[il + 1] * 3 + input[il] + 2) >> 2;
 
-    l_out[3] = (input[il + 1] * 3 + input[il + 1] + 2) >> 2;
+    l_out[3] = (input[il + 1] * 3 + input[il + 2] + 2) >> 2;
 
-    l_out[4] = (input[il + 2] * 3 + input[il + 2] + 2) >> 2;
+    l_out[4] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
 
-    l_out[5] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
+    l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-    l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
+    l_out[6] = (input[il + 3] * 3 + input[il + 2] + 2) >> 2;
 
     l_out[7] = input[il + 3];
 
-- 
2.43.0


From d6cf854addb1d92ab2205964736bcbcd6bd13437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 10/32] fix: do not upsample chroma across row boundaries,
 replace the broken AVX2 HV upsampler

---
 src/upsampler.rs        |   7 +-
 src/upsampler/avx2.rs   | 348 ----------------------------------------
 src/upsampler/scalar.rs |  12 +-
 src/upsampler/sse.rs    |  17 ++
 src/worker.rs           |  10 +-
 5 files changed, 38 insertions(+), 356 deletions(-)
 delete mode 100644 src/upsampler/avx2.rs

diff --git a/src/upsampler.rs b/src/upsampler.rs
index db934ed..31239ac 100644
--- a/src/upsampler.rs
+++ b/src/upsampler.rs
@@ -74,7 +74,6 @@ pub use sse::upsample_horizontal_sse;
 use crate::components::UpSampler;
 pub use crate::upsampler::scalar::{upsample_horizontal, upsample_vertical};
 
-mod avx2;
 mod scalar;
 mod sse;
 
@@ -99,10 +98,10 @@ pub fn choose_hv_samp_function(use_unsafe:bool) -> UpSampler
     if use_unsafe {
         #[cfg(all(feature = "x86", any(target_arch = "x86_64", target_arch = "x86")))]
         {
-            if is_x86_feature_detected!("avx2")
+            if is_x86_feature_detected!("sse4.1")
             {
-                debug!("Using avx HV up-sampler");
-                return avx2::upsample_hv_simd;
+                debug!("Using sse HV up-sampler");
+                return sse::upsample_hv_sse;
             }
         }
     }
diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
deleted file mode 100644
index fcc2b4e..0000000
--- a/src/upsampler/avx2.rs
+++ /dev/null
@@ -1,348 +0,0 @@
-#![cfg(feature = "x86")]
-#![cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-#[cfg(target_arch = "x86")]
-use std::arch::x86::*;
-#[cfg(target_arch = "x86_64")]
-use std::arch::x86_64::{
-    _mm256_add_epi16, _mm256_alignr_epi8, _mm256_blend_epi16, _mm256_insert_epi16,
-    _mm256_loadu_si256, _mm256_mullo_epi16, _mm256_permute2x128_si256, _mm256_set1_epi16,
-    _mm256_srai_epi16, _mm256_storeu_si256, _mm256_unpackhi_epi16, _mm256_unpacklo_epi16,
-};
-
-use crate::upsampler::scalar::upsample_hv;
-
-pub fn upsample_hv_simd(input: &[i16], output_len: usize) -> Vec<i16>
-{
-    if input.len() < 500
-    {
-        //For small inputs, use scalar.
-        return upsample_hv(input, output_len);
-    }
-    unsafe { upsample_hv_avx(input, output_len) }
-}
-// herein lies 2 days work tread lightly
-
-#[rustfmt::skip]
-#[target_feature(enable = "avx")]
-#[target_feature(enable = "avx2")]
-#[inline]
-pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
-{
-    //to understand how it works, we have to see what vertical upsampling + horizontal upsampling do
-    // Hence the illustration
-    //    | A1 | A2 |
-    //    |====|====|
-    //    | p1 | p2 |
-    //    |----|----|
-    //    | p3 | p4 |
-    //    |====|====|
-    //    | B1 | B2 |
-    //
-    // -> Okay for two squeezed lines, A and B we generate 2 lines.
-    // We do the same for B & C and so on.
-    //
-    // After our vertical pass, we have p2 and p3 stretching halfway the image
-    //
-    // After that vertical pass, we want to do another pass.
-    // | p1 |q1|q2| p2 |
-    // |----|=====|----|
-    // | p3 |q3|q4| p4 |
-    //
-    // now q1 will stretch the whole image, hence it becomes a full upsampling
-
-    // So how do we actually implement.
-
-    let mut output = vec![0;output_len];
-
-    // okay for the next step lets play with AVX
-
-    // Difference in  pixels for a width
-    let mut stride = 0;
-    //
-    let mut modify_stride = true;
-
-    let mut pos = 0;
-    let mut output_position = 0;
-
-    let mut prev = (3 * input[0] + input[stride] + 2) >> 2;
-    let mut pixel_far = (3 * input[pos + 16] + input[pos + stride + 16] + 2) >> 2;
-
-    let three = _mm256_set1_epi16(3);
-    let two = _mm256_set1_epi16(2);
-
-    macro_rules! pack_shuffle {
-        ($x:tt,$y:tt,$value:tt) => {
-            let v = _mm256_permute2x128_si256::<$value>($x, $x);
-
-            let rwn_hi = _mm256_unpackhi_epi16(v, v);
-            let rwn_lo = _mm256_unpacklo_epi16(v, v);
-
-            $y = _mm256_permute2x128_si256::<0b0011_0000>(rwn_lo, rwn_hi);
-        };
-    }
-
-    macro_rules! upsample_horizontal {
-        ($row:tt,$stride:tt) => {
-            // AND THE implementation of srli is 2 128 bit shuffles.
-            // Mahn intel really??
-            // Therefore we need to emulate that instruction
-            // See this stack overflow post: https://stackoverflow.com/questions/25248766/emulating-shifts-on-32-bytes-with-avx
-
-            // shift the whole data in the register left by 16 to remove zero-th element
-            // array looks like B0,[B1,B2,B3,B4,B5,B6,B7,0]
-            // _mm256_srli_si256(A, N) (0<N<16)
-            let mut next_arr = _mm256_alignr_epi8::<2>(
-                _mm256_permute2x128_si256::<{ shuffle(2, 0, 0, 1) }>($row, $row),
-                $row,
-            );
-            // shift the whole data in the array down by(right) by 16, to remove n+1.
-            // Now our register looks like  [0,B1,B2,B3,B4,B5,B6],B7.
-            // _mm256_slli_si256(A, N) ( 0< N < 16).
-            let mut prev_arr = _mm256_alignr_epi8::<{ 16 - 2 }>($row,
-                                                                _mm256_permute2x128_si256::<{ shuffle(0, 0, 2, 0) }>($row, $row),
-            );
-
-
-            // insert values
-
-            // prev_array => [X0,B1,B2,B3,B4,B5,B6,B7]
-            prev_arr = _mm256_insert_epi16::<0>(prev_arr, prev);
-            // NEXT_ARR => [B0,B1,B2,B3,B4,B5,B6,X1]
-            next_arr = _mm256_insert_epi16::<15>(next_arr, pixel_far);
-
-            // Okay at this point we have: (the arrows just show how prev_arr & next_arr differ from row_near)
-            //              |                                                  |
-            //             \/                                                 \/
-            //-> prev_arr [B0,B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15]
-            //
-            //
-            //-> row_near [B1,B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B2,B13,B14,B15,B16]
-            //
-            //              |                                                   |
-            //             \/                                                  \/
-            //-> next_row [B2,B3,B4,B5,B6,B7,B8,B9,B10,B11,B12,B13,B14,B15,B16,B17]
-
-
-            // Next we need to get values in Avx register and stretch them.
-            // The reason for this is simple, currently our avx register contain vertical upsampling values.
-            // packed together, for a packing B0,B1 , we need to generate two values
-            //illustrated by
-            // |  |           |  |
-            // |B0| |p1| |p2| |B1|
-            // |  |           |  |
-            // Now a cool way to stretch them is to half our three avx registers,  into 6 upper or lower registers
-            // and duplicate elements of either the half register to the other half
-
-            // Eg for near:
-            // near->|B0,B1,B2,B3]
-            // near_hi ->[B0,B0,B1,B1]
-            // near_lo ->[B2,B2,B3,B3]
-
-            // Duplicate top elements to low elements
-            let (near_lo, near_hi, prev_lo, prev_hi, next_lo, next_hi);
-
-            pack_shuffle!($row,near_lo,0);
-            pack_shuffle!($row,near_hi,0b011_0011);
-
-            pack_shuffle!(prev_arr,prev_lo,0);
-            pack_shuffle!(prev_arr,prev_hi,0b011_0011);
-
-            pack_shuffle!(next_arr,next_lo,0);
-            pack_shuffle!(next_arr,next_hi,0b011_0011);
-
-            // FINALLY START CARRYING OUT THE CALCULATIONS.
-
-            // everything above was set up for this
-
-
-            // prev-lo->[BO,B0,B1,B1,B2,B2,B3,B3]
-            // next-lo->[B2,B2,B3,B3,B4,B4,B5,B5]
-            // NN    -> [B0,B2,B1,B3,B2,B4,B3,B5]
-
-            // notice how prettily NN contains  a weird shift of elements.
-
-            // for i in 1..input.len() - 1{
-            //         let sample = 3 * input[i] + 2;
-            //
-            //         out[i * 2] = (sample + input[i - 1]) >> 2;
-            //         out[i * 2 + 1] = (sample + input[i + 1]) >> 2;
-            // }
-
-            // Look at the ABOVE loop, notice how even numbers get i-1, look at the even indices
-            // in nn.
-            // Look at the ODD INDICES while at it.
-
-            // And that's the miracle.
-            // I rest my case, may you understand the rest of the code.
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_lo, next_lo);
-            // input[x]*3
-            let an = _mm256_mullo_epi16(near_lo, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-
-            _mm256_storeu_si256(output.get_mut(output_position+$stride..output_position+$stride+16).unwrap().as_mut_ptr().cast(), cn);
-
-
-            let nn = _mm256_blend_epi16::<0b1010_1010>(prev_hi, next_hi);
-
-            let an = _mm256_mullo_epi16(near_hi, three);
-
-            let bn = _mm256_add_epi16(nn, two);
-
-            let cn = _mm256_srai_epi16::<2>(_mm256_add_epi16(an, bn));
-            // hi is stored one output width lower.
-            _mm256_storeu_si256(output.get_mut(output_position+$stride+16..output_position+$stride+32).unwrap().as_mut_ptr().cast(), cn);
-
-
-        };
-    }
-
-    macro_rules! upsample_vertical {
-        ($load_near:tt,$load_far:tt,$row_near:tt,$row_far:tt) => {
-            let t2 = _mm256_add_epi16($load_far, two);
-            let t1 = _mm256_mullo_epi16($load_near, three);
-
-            // (near * 3 + far + 2 ) >> 2
-            $row_near = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
-
-            let t3 = _mm256_add_epi16($load_near, two);
-            let t4 = _mm256_mullo_epi16($load_far, three);
-
-            // (far * 3 + near + 2 ) >> 2
-            $row_far = _mm256_srai_epi16::<2>(_mm256_add_epi16(t3, t4));
-        };
-    }
-
-    let (mut row_near, mut row_far);
-
-    let len = output_len / 16;
-    let end = (input.len() >> 7).saturating_sub( 1);
-    // some calculations to determine how much will not be written per MCU.
-    let v = (output.len() / 16).saturating_sub (end * 32);
-
-
-    // we need to iterate row wise
-    // we initially have 8 rows we want to make 32, new rows,
-    for j in 0..8
-    {
-
-        // loop row wise
-        // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
-        // chunk data. into 16
-        for _ in 0..end
-        {
-            let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
-            // ==========================================================================
-            // -> Pass 1:Vertical calculation.
-            // --------------------------------------------------------------------------
-            upsample_vertical!(load_near, load_far, row_near, row_far);
-
-            // --------------------------------------------------------------------------
-            // Pass 1 : Complete
-            // ==========================================================================
-
-            // ==========================================================================
-            // Pass 2: Horizontal upsampling
-            //---------------------------------------------------------------------------
-
-            upsample_horizontal!(row_near, 0);
-
-            upsample_horizontal!(row_far, (len));
-
-            output_position += 32;
-            // ---------------------------------------------------------------------------
-            // pass 2 complete
-            // ===========================================================================
-            pos += 16;
-            // update previous and next values
-            assert!(input.len() >= pos + stride + 16);
-            // Safety , the assert statement above ensures none of these goes out of bounds.
-            prev = (3 * (*input.get(pos).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride).unwrap_or(&0))
-                .wrapping_add(2)) >> 2;
-
-            pixel_far = (3 * (*input.get(pos + 16).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride + 16).unwrap_or(&0))
-                .wrapping_add( 2)) >> 2;
-        }
-        // now there are some more data left, since we actually don't write
-        // to the end of the array.
-
-        // those whe handle using scalar code
-       
-        let (a,b )=  output.split_at_mut(output_position+v);
-        
-        let c = a.len()-v;
-    
-        // areas the vector code didn't touch
-        let unwritten = &mut a[c..];
-        let unwritten_stride = &mut b[len-v..len];
-     
-        
-        for (input_window,output_window) in input[pos-v/2-2..pos].windows(3).zip(unwritten.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        *unwritten.last_mut().unwrap() = input[pos];
-        
-        for (input_window,output_window) in input[pos-v/2+stride-2..pos+stride].windows(3).zip(unwritten_stride.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        
-        *unwritten_stride.last_mut().unwrap() = input[pos+stride];
-        
-    
-
-        output_position += len+v;
-        pos+=v/2;
-        
-        if modify_stride
-        {
-            stride = input.len() / 8;
-            modify_stride = false;
-
-        }
-        if j == 6
-        {
-            // when j is 6 it means we are at position 14, and 15, here we
-            // need to revert stride to be zero to get a nearest neighbour
-
-            // since there is no more row to look ahead using stride.
-            stride = 0;
-
-        }
-        // set some manually
-        output[output_position - len] = output[output_position - len + 1];
-
-        output[output_position - len - 2] = output[output_position - len - 4];
-
-        output[output_position - len - 1] = output[output_position - len - 3];
-
-        output[output_position - 2] = output[output_position - 4];
-
-        output[output_position - 1] = output[output_position - 3];
-    }
-
-    return output;
-}
-
-#[inline]
-const fn shuffle(z: i32, y: i32, x: i32, w: i32) -> i32
-{
-    ((z << 6) | (y << 4) | (x << 2) | w) as i32
-}
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index 3e666fa..b5cea23 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -153,14 +153,20 @@ pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
     // Furthermore, we know it will be fast, upsample vertical and horizontal are super optimized
     // to eliminate bounds check.
 
-    // But there is an AVX version obviously
+    // But there is an SSE version obviously
 
     // But this is a good place for optimization if one wants to tackle that.
 
     // first pass, do vertical sampling
     let first_pass = upsample_vertical(input, input.len() * 2);
-    //second pass, do horizontal sampling
-    let second_pass = upsample_horizontal(&first_pass, output_len);
+
+    // second pass, do horizontal sampling for each of the 16 rows
+    let mut second_pass = Vec::with_capacity(output_len);
+
+    for row in first_pass.chunks_exact(input.len() >> 3)
+    {
+        second_pass.extend(upsample_horizontal(row, row.len() * 2));
+    }
 
     return second_pass;
 }
diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index 0a420c8..e895f0b 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -8,12 +8,29 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 use std::convert::TryInto;
 
+use crate::upsampler::scalar::upsample_vertical;
+
 #[inline]
 pub fn upsample_horizontal_sse(input: &[i16], output_len: usize) -> Vec<i16>
 {
     unsafe { upsample_horizontal_sse_u(input, output_len) }
 }
 
+/// Upsample in both directions, see scalar::upsample_hv
+pub fn upsample_hv_sse(input: &[i16], output_len: usize) -> Vec<i16>
+{
+    let first_pass = upsample_vertical(input, input.len() * 2);
+
+    let mut second_pass = Vec::with_capacity(output_len);
+
+    for row in first_pass.chunks_exact(input.len() >> 3)
+    {
+        second_pass.extend(upsample_horizontal_sse(row, row.len() * 2));
+    }
+
+    return second_pass;
+}
+
 /// Upsample using SSE to improve speed
 ///
 /// The sampling filter is bi-linear or triangle filter
diff --git a/src/worker.rs b/src/worker.rs
index ad8db9c..4def4ca 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -105,7 +105,15 @@ pub(crate) fn post_process_inner(
         // carry out upsampling , the return vector overwrites the original vector
         for i in 1..x
         {
-            unprocessed[i] = (component_data[i].up_sampler)(&unprocessed[i], unprocessed[0].len());
+            let component = &component_data[i];
+            // Filters shouldn't run across row boundaries, so horizontal upsampling is done row by row.
+            // Vertical upsampling needs the eight rows of a block.
+            let rows = if v_samp == 1 { 1 } else { 8 };
+
+            unprocessed[i] = unprocessed[i]
+                .chunks_exact(component.width_stride * rows)
+                .flat_map(|chunk| (component.up_sampler)(chunk, chunk.len() * h_samp * v_samp))
+                .collect();
         }
     }
 
-- 
2.43.0


From ffaee473b957bfdde2c6781235a4dd832623909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 11/32] fix: reject images which have neither one nor three
 components

---
 src/headers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..1515828 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -273,6 +273,15 @@ where
         )));
     }
 
+    // everything after this assumes either a Y or a Y,Cb,Cr image
+    if num_components != 1 && num_components != 3
+    {
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported, expected 1 or 3",
+            num_components
+        )));
+    }
+
     info!("Image components : {}", num_components);
 
     if num_components == 1
-- 
2.43.0


From 1b1e1bfa24ad5cc95944033c5fdb2a52c0973929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 12/32] fix: reject images whose first component is not the
 only Y component

---
 src/decoder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 1d865e2..2801225 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -633,11 +633,11 @@ impl Decoder
     /// before trying to decode.
     pub(crate) fn check_component_dimensions(&self) -> Result<(), DecodeErrors>
     {
-        // find  y component
+        // find  y component, decoding and post processing expect it to be the first
         let y_comp = self
             .components
-            .iter()
-            .find(|c| c.component_id == ComponentID::Y)
+            .first()
+            .filter(|c| c.component_id == ComponentID::Y)
             .ok_or(DecodeErrors::FormatStatic(
                 "Could not find Y component for the image",
             ))?;
@@ -645,11 +645,13 @@ impl Decoder
         let y_width = y_comp.width_stride;
         let cb_cr_width = y_width / self.h_max;
 
-        for comp in &self.components
+        for comp in &self.components[1..]
         {
             if comp.component_id == ComponentID::Y
             {
-                continue;
+                return Err(DecodeErrors::FormatStatic(
+                    "More than one Y component in the image",
+                ));
             }
 
             if comp.width_stride != cb_cr_width
-- 
2.43.0


From 0b696972e2aeea615bfb6569c867e216514488f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 13/32] fix: do not leak state of an earlier image into the
 next one decoded by the same decoder

---
 src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 2801225..4892193 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,6 +240,10 @@ impl Decoder
     where
         R: Read + BufRead,
     {
+        // details of an image decoded earlier (tables, sampling factors, restart interval..)
+        // do not apply to this one
+        *self = Decoder::default(self.options);
+
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
 
-- 
2.43.0


From 544870c25f6bfeb64dbda35ab83b5c01d2e9760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 14/32] fix: report baseline images with components in separate
 scans instead of returning garbage

---
 src/mcu.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..d25a615 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -132,6 +132,13 @@ impl Decoder
         // check dc and AC tables
         self.check_tables()?;
 
+        if usize::from(self.num_scans) != self.input_colorspace.num_components()
+        {
+            return Err(DecodeErrors::FormatStatic(
+                "Baseline images whose components are in separate scans are not supported",
+            ));
+        }
+
         let  mut scoped_pools = scoped_threadpool::Pool::new(
             self.options.get_threads());
         info!("Created {} worker threads", scoped_pools.thread_count());
-- 
2.43.0


From a3cdd39b70f00d4f27a6dadc691a5e542f4597db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 15/32] fix: reject a second start of frame instead of mixing
 two frame headers

---
 src/headers.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 1515828..d0a8812 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -203,6 +203,13 @@ pub(crate) fn parse_start_of_frame<R>(
 where
     R: Read,
 {
+    if !img.components.is_empty()
+    {
+        // also reached for frame headers found within the entropy coded data
+        return Err(DecodeErrors::SofError(
+            "More than one start of frame in the image".to_string(),
+        ));
+    }
     // Get length of the frame header
     let length = read_u16_be(buf)
         .map_err(|_| DecodeErrors::Format("Cannot read SOF length, exhausted data".to_string()))?;
-- 
2.43.0


From 6eec5876f6b0d89b0cbb45f8ee582405d557bf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 16/32] fix: compute block counts of images wider or higher
 than 65528 without overflow

---
 src/mcu.rs      | 8 ++++----
 src/mcu_prog.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index d25a615..dd9e510 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -171,8 +171,8 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
@@ -190,7 +190,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -198,7 +198,7 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
             bias = 1;
         }
         // Size of our output image(width*height)
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..dd1a741 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -280,8 +280,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From 6d85cfc5e425f3580043f88896e234da699ea201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 17/32] fix: decode the last MCU row of down sampled images
 with an odd number of them

---
 src/mcu.rs      | 38 ++++++++++++++++++++++----------------
 src/mcu_prog.rs | 13 ++++++-------
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index dd9e510..1f76305 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -157,12 +157,13 @@ impl Decoder
 
                 // Values for horizontal samples end halfway the image and do not complete an MCU width.
                 // To make it complete we multiply width by 2 and divide mcu_height by 2
+                // (rounding up, the last one may only have a single MCU row)
                 mcu_width = self.mcu_x * 2;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
             } else if self.sub_sample_ratio == SubSampRatios::HV
             {
                 mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
                 bias = 2;
             } else {
                 mcu_width = self.mcu_x;
@@ -201,17 +202,13 @@ impl Decoder
             mcu_height = (usize::from(self.info.height) + 7) / 8;
             bias = 1;
         }
-        // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
         let is_hv = self.sub_sample_ratio == SubSampRatios::HV;
-        // There are some images where we need to overallocate  especially for small buffers,
-        // because the chunking calculation will do it wrongly,
-        // this only applies to  small down-sampled images
-        // See https://github.com/etemesi254/zune-jpeg/issues/11
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
+        // Images with an odd number of MCU rows have a single one left for the last iteration
+        let last_is_half = mcu_height * 2 == self.mcu_y + 1
+            && matches!(self.sub_sample_ratio, SubSampRatios::H | SubSampRatios::HV);
         // things needed for post processing that we can remove out of the loop
         let input = self.input_colorspace;
         let output = self.options.get_out_colorspace();
@@ -225,18 +222,27 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
-        // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        // Space for the pixels of one iteration below
+        let chunk_size = width * output.num_components() * 8 * h_max * v_max;
+        // Storage for decoded pixels, including the padding rows of the last iteration
+        let mut global_channel = vec![0; chunk_size * mcu_height];
 
         // Split output into different blocks each containing enough space for an MCU width
-        let mut chunks =
-            global_channel.chunks_exact_mut(width * output.num_components() * 8 * h_max * v_max);
+        let mut chunks = global_channel.chunks_exact_mut(chunk_size);
         let mut tmp = [0; DCT_BLOCK];
 
         // Argument for scoped threadpools, see file docs.
         scoped_pools.scoped::<_, Result<(), DecodeErrors>>(|scope| {
-            for _ in 0..mcu_height
+            for i in 0..mcu_height
             {
+                // number of MCU's that are left to decode for this iteration.
+                let (rows, columns) = match (last_is_half && i + 1 == mcu_height, is_hv)
+                {
+                    (true, true) => (1, mcu_width),
+                    (true, false) => (bias, mcu_width / 2),
+                    (false, _) => (bias, mcu_width),
+                };
+
                 // faster to memset than a later memcpy
 
                 // We allocate on every mcu_height since this is sent to a separate
@@ -257,9 +263,9 @@ impl Decoder
                 }
                 // Bias only affects 4:2:0(chroma quartered) sub-sampled images.
                 // since we want to fetch two MCU rows before we send it to post process
-                for v in 0..bias
+                for v in 0..rows
                 {
-                    for j in 0..mcu_width
+                    for j in 0..columns
                     {
                         // iterate over components
 
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index dd1a741..05c2c0d 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -73,7 +73,9 @@ impl Decoder
         for i in 0..self.input_colorspace.num_components()
         {
             let comp = &self.components[i];
-            let len = mcu_width * comp.vertical_sample * comp.horizontal_sample * mcu_height;
+            // post processing may handle two MCU rows at once, so pad to an even number of rows
+            let rows = mcu_height + (mcu_height & 1);
+            let len = mcu_width * comp.vertical_sample * comp.horizontal_sample * rows;
 
             block[i] = vec![0; len];
         }
@@ -170,11 +172,6 @@ impl Decoder
         let y = &block[0];
         let cb = &block[1];
         let cr = &block[2];
-        let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
-
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
-
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
@@ -186,13 +183,15 @@ impl Decoder
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
         let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
-        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
 
+        let mut out_vector = vec![0_u8; y_chunk.len() * chunks_size];
+        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
+
         let mut pool = scoped_threadpool::Pool::new(self.options.get_threads());
 
         if self.input_colorspace.num_components() == 3 {
-- 
2.43.0


From 1d6ee0944f4531added36407f2cfb9bd97f239f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 18/32] fix: do not drop components of the last MCUs when
 look-ahead reaches the end of image

---
 src/mcu.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 1f76305..7189187 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -349,12 +349,9 @@ impl Decoder
                             // allow it because of some weird reason.
                             if let Some(m) = stream.marker
                             {
-                                if m == Marker::EOI
-                                {
-                                    break;
-                                }
-
-                                if let Marker::RST(_) = m { continue }
+                                // These are found by look-ahead, the bits before them still
+                                // contain what is left of the MCU's.
+                                if let Marker::EOI | Marker::RST(_) = m { continue }
 
                                 error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
                                 self.parse_marker_inner(m, reader)?;
-- 
2.43.0


From 0c97a64d4e81dd6037ee8df044808e0b0fd0d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 19/32] fix: look for the marker after the first progressive
 scan if look-ahead did not reach it

---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 05c2c0d..a027a31 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -87,7 +87,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
-- 
2.43.0


From fdf60676382ee53a4fc8d7699aa8f721825e643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:57 +0000
Subject: [PATCH 20/32] fix: reset sampling factors of progressive grayscale
 images before decoding

---
 src/mcu_prog.rs | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index a027a31..81e86ec 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -51,6 +51,31 @@ impl Decoder
     ) -> Result<Vec<u8>, DecodeErrors>
     {
         self.check_component_dimensions()?;
+        if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
+            /*
+            Apparently, grayscale images which can be down sampled exists, which is weird in the sense
+            that it has one component Y, which is not usually down sampled.
+
+            This means some calculations will be wrong, so for that we explicitly reset params
+            for such occurrences, warn and reset the image info to appear as if it were
+            a non-sampled image to ensure decoding works
+
+            This has to be done before decoding, since it determines how blocks are arranged
+            */
+            if self.options.get_strict_mode(){
+                return Err(DecodeErrors::FormatStatic("[strict-mode]: Grayscale image with down-sampled component."))
+            }
+            warn!("Grayscale image with down-sampled component, resetting component details");
+            self.h_max = 1;
+            self.v_max = 1;
+            self.sub_sample_ratio = SubSampRatios::None;
+            self.components[0].vertical_sample = 1;
+            self.components[0].horizontal_sample = 1;
+            self.components[0].width_stride = (usize::from(self.info.width) + 7) / 8 * 8;
+            self.mcu_x = (usize::from(self.info.width) + 7) / 8;
+            self.mcu_y = (usize::from(self.info.height) + 7) / 8;
+            self.interleaved = false;
+        }
         let mcu_height;
 
         // memory location for decoded pixels for components
@@ -145,29 +170,6 @@ impl Decoder
             bias = 2;
         }
 
-        if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
-            /*
-            Apparently, grayscale images which can be down sampled exists, which is weird in the sense
-            that it has one component Y, which is not usually down sampled.
-
-            This means some calculations will be wrong, so for that we explicitly reset params
-            for such occurrences, warn and reset the image info to appear as if it were
-            a non-sampled image to ensure decoding works
-
-            NOTE: not tested on progressive images as I couldn't find such an image.
-            */
-            if self.options.get_strict_mode(){
-                return Err(DecodeErrors::FormatStatic("[strict-mode]: Grayscale image with down-sampled component."))
-            }
-            warn!("Grayscale image with down-sampled component, resetting component details");
-            self.h_max = 1;
-            self.v_max = 1;
-            self.sub_sample_ratio = SubSampRatios::None;
-            self.components[0].vertical_sample = 1;
-            self.components[0].width_stride = mcu_width * 8;
-            self.components[0].horizontal_sample = mcu_width;
-            bias = 1;
-        }
         // remove items from  top block
         let y = &block[0];
         let cb = &block[1];
-- 
2.43.0


From 079b110ca68cbaa8450ed446831733f2ba148047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 21/32] fix: count restart intervals in MCUs and find restart
 markers look-ahead did not reach

---
 src/mcu.rs      | 41 +++++++++++++++++++++++++++++++----------
 src/mcu_prog.rs | 35 +++++++----------------------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 7189187..5b1cf10 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -61,6 +61,7 @@ use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
 use crate::errors::DecodeErrors;
 use crate::marker::Marker;
+use crate::mcu_prog::get_marker;
 use crate::worker::post_process;
 use crate::{ColorSpace, Decoder};
 
@@ -222,6 +223,7 @@ impl Decoder
         let hv_width_stride = width_stride >> 1;
 
         let mut stream = BitStream::new();
+        self.todo = self.restart_interval;
         // Space for the pixels of one iteration below
         let chunk_size = width * output.num_components() * 8 * h_max * v_max;
         // Storage for decoded pixels, including the padding rows of the last iteration
@@ -267,6 +269,8 @@ impl Decoder
                 {
                     for j in 0..columns
                     {
+                        // a restart marker may precede every MCU
+                        self.check_restart(reader, &mut stream)?;
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
@@ -333,13 +337,6 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
-
                             // In some corrupt images, it may occur that header markers occur in the stream.
                             // The spec EXPLICITLY FORBIDS this, specifically, in
                             // routine F.2.2.5  it says
@@ -389,14 +386,38 @@ impl Decoder
         );
         return Ok(global_channel);
     }
+    /// Count down the MCU's of a restart interval, handling the restart marker
+    /// once all of them were decoded.
+    ///
+    /// This should be called before decoding an MCU and is a no-op if not using restarts.
+    ///
+    /// This routine is shared with mcu_prog
+    #[inline]
+    pub(crate) fn check_restart(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
+    {
+        if self.restart_interval != 0
+        {
+            if self.todo == 0
+            {
+                self.handle_rst(reader, stream)?;
+            }
+            self.todo -= 1;
+        }
+        Ok(())
+    }
     // handle RST markers.
-    // No-op if not using restarts
-    // this routine is shared with mcu_prog
     #[cold]
-    pub(crate) fn handle_rst(&mut self, stream: &mut BitStream) -> Result<(), DecodeErrors>
+    fn handle_rst(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
     {
         self.todo = self.restart_interval;
 
+        // look-ahead may not have reached the marker
+        stream.marker = get_marker(reader, stream);
+
         if let Some(marker) = stream.marker
         {
             // Found a marker
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 81e86ec..3786c1e 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -253,6 +253,7 @@ impl Decoder
     {
         self.check_component_dimensions()?;
         stream.reset();
+        self.todo = self.restart_interval;
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
@@ -296,11 +297,9 @@ impl Decoder
             {
                 while j < mcu_width
                 {
-                    let start = 64 * (j + i * (self.components[k].width_stride / 8));
+                    self.check_restart(reader, stream)?;
 
-                    if i >= mcu_height {
-                        break;
-                    }
+                    let start = 64 * (j + i * (self.components[k].width_stride / 8));
 
                     let data: &mut [i16; 64] = buffer.get_mut(k)
                         .unwrap().get_mut(start..start + 64)
@@ -339,16 +338,8 @@ impl Decoder
                                 // EOB runs indicate the whole block is empty, but unlike for baseline
                                 // EOB in progressive tell us the number of proceeding blocks currently zero.
 
-                                // other decoders use a check in decode_mcu_first decrement and return if it's an
-                                // eob run(since the array is expected to contain zeroes). but that's a function call overhead(if not inlined) and a branch check
-                                // we do it a bit differently
-                                // we can use divisors to determine how many MCU's to skip
-                                // which is more faster than a decrement and return since EOB runs can be
-                                // as big as 10,000
-
-                                i += (j + stream.eob_run as usize - 1) / mcu_width;
-                                j = (j + stream.eob_run as usize - 1) % mcu_width;
-                                stream.eob_run = 0;
+                                // this block is one of them, there is nothing to decode for it.
+                                stream.eob_run -= 1;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
                             }
@@ -358,12 +349,6 @@ impl Decoder
                         }
                     }
                     j += 1;
-                    self.todo -= 1;
-
-                    if self.todo == 0
-                    {
-                        self.handle_rst(stream)?;
-                    }
                 }
                 j = 0;
                 i += 1;
@@ -383,6 +368,7 @@ impl Decoder
             {
                 for j in 0..self.mcu_x
                 {
+                    self.check_restart(reader, stream)?;
                     // process scan n elements in order
                     for k in 0..self.num_scans
                     {
@@ -416,13 +402,6 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
                     }
                 }
             }
@@ -434,7 +413,7 @@ impl Decoder
 ///Get a marker from the bit-stream.
 ///
 /// This reads until it gets a marker or end of file is encountered
-fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
+pub(crate) fn get_marker(reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream) -> Option<Marker>
 {
     if let Some(marker) = stream.marker
     {
-- 
2.43.0


From 6c127079080dcb159e641b3d1d7680d97ecc41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 22/32] fix: do not stop decoding at DRI, DQT, COM and APP
 segments between progressive scans

---
 src/mcu_prog.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 3786c1e..56cdcf8 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -143,6 +143,10 @@ impl Decoder
                         stream.reset();
                         continue 'eoi;
                     }
+                // other segments which may precede a scan
+                Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) => {
+                    self.parse_marker_inner(marker, reader)?;
+                }
                 _ =>
                     {
                         break 'eoi;
-- 
2.43.0


From 1ad130b8f7121c00b5b190017b5e5b0c82c468ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 23/32] fix: rebuild AC tables defined before a progressive
 start of frame

---
 src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4892193..319e9f8 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -322,6 +322,11 @@ impl Decoder
                     else
                     {
                         self.is_progressive = true;
+                        // AC tables seen before this were built for baseline images
+                        for table in self.ac_huffman_tables.iter_mut().flatten()
+                        {
+                            *table = HuffmanTable::new(&table.bits, table.values, false, true)?;
+                        }
 
                         SOFMarkers::ProgressiveDctHuffman
                     }
-- 
2.43.0


From b169d020437d6240cd4c007480b3f6777722c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:50 +0000
Subject: [PATCH 24/32] fix: give the closer row the higher weight in vertical
 upsampling

---
 src/upsampler/scalar.rs | 89 ++++++++++-------------------------------
 1 file changed, 21 insertions(+), 68 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index b5cea23..1efe257 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -58,89 +58,42 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
 
     return out;
 }
-/// Vertical upsampling (which I don't trust but it works anyway)
+/// Vertical upsampling
 ///
-/// The algorithm is still a bi-linear filter with some caveats.
+/// The algorithm is still a bi-linear filter, every row gives two rows, the upper one takes
+/// a fourth of the row above it and the lower one takes a fourth of the row below it.
+///
+/// The first and last row have no row above/below, so they use their own row, which boils down to
+/// nearest neighbour upsampling.
 pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    // the caveats, row_near and row_far for the first row point to the same
-    // array, that boils to a nearest neighbour upsampling?
-
-    // if row_near doesn't have data (next returns None), it uses it's
-    // previous row, so this again becomes a nearest neighbour
-
     // How many pixels we need to skip to the next MCU row.
     let stride = input.len() >> 3;
 
-    // We have 8 rows and we want 16 rows
-    let mut row_near = input.chunks_exact(stride);
-
-    // row far should point one row below row_near, if row near is in row 3, row far is in
-    // row 4.
-    let mut row_far = input.chunks_exact(stride);
-
     let mut out = vec![0; output_len];
-    // nearest row
-    let mut rw_n = row_near.next().unwrap();
-    // farthest row;
-    let mut rw_f = row_far.next().unwrap();
-    // previous row, for out of edge cases, e.g if we reach a row and
-    // we don't have data for that row, we use the previous row
-    let mut previous;
 
-    let mut i = 0;
+    // We have 8 rows and we want 16 rows
+    for (i, out_rows) in out.chunks_exact_mut(stride * 2).enumerate().take(8)
+    {
+        let above = i.saturating_sub(1);
+        let below = (i + 1).min(7);
 
-    let mut next_row = true;
+        let row_near = &input[i * stride..(i + 1) * stride];
+        let row_above = &input[above * stride..(above + 1) * stride];
+        let row_below = &input[below * stride..(below + 1) * stride];
 
-    for _ in 0..8
-    {
-        // A bit of cheat here.
-        //
-        // Let me explain, split at mut will return two slices, one containing 0..stride
-        // and another containing what remains.
-        //
-        // The length of out_near => stride, remainder will ALWAYS be greater than or equal to stride.
-        // now this is important with the loop below, we are using zip iterators which have an interesting
-        // property, they stop if any iterator doesn't have elements
-        //
-        // So we know remainder will be >= stride but out_near will be stride, therefore the zip will
-        // effectively stop when we write two rows.
-        //
-        // Ideally all of this is done to eliminate bounds check, the compiler will vectorize this
-        // better without the bounds check.
-        let (out_near, remainder) = out[i..].split_at_mut(stride);
+        let (out_upper, out_lower) = out_rows.split_at_mut(stride);
 
-        for (((near, far), on), of) in rw_n
-            .iter()
-            .zip(rw_f.iter())
-            .zip(out_near.iter_mut())
-            .zip(remainder.iter_mut())
+        // zip iterators eliminate bounds check, the compiler will vectorize this
+        // better without the bounds check.
+        for ((near, far), out) in row_near.iter().zip(row_above).zip(out_upper)
         {
-            // Yes this can be easily accelerated, with SSE or AVX,
-            // but it's a maintenance overhead and the compiler does an amazing work
-            // here so Id rather not do it (even libjpeg doesn't :) )
-
-            // near row
-            *on = ((*near) * 3 + (*far) + 2) >> 2;
-            // far row
-            *of = ((*far) * 3 + (*near) + 2) >> 2;
+            *out = ((*near) * 3 + (*far) + 2) >> 2;
         }
-        // we wrote two adjacent lines update i to point to next position
-        // in output buffer.
-        i += stride * 2;
-
-        previous = rw_n;
-
-        rw_n = row_near.next().unwrap_or(previous);
 
-        rw_f = row_far.next().unwrap_or(rw_n);
-        // okay here I'm lazy. Ideally what i want s simply this.
-        // for the first row, keep row_near and row_far to the same, row, but for sub-sequent rows,
-        // row_far should point to the next row(1 row further than this row_near).
-        if next_row
+        for ((near, far), out) in row_near.iter().zip(row_below).zip(out_lower)
         {
-            rw_f = row_far.next().unwrap_or(rw_n);
-            next_row = false;
+            *out = ((*near) * 3 + (*far) + 2) >> 2;
         }
     }
     return out;
-- 
2.43.0


From e62e60e9429d69000007966bc2d8019e345e63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:49 +0000
Subject: [PATCH 25/32] fix: a grayscale image no longer changes the output
 colorspace of later images

---
 src/decoder.rs | 13 ++++++++++++-
 src/headers.rs |  5 +++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 319e9f8..97eb12a 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -118,6 +118,8 @@ pub struct Decoder
     pub(crate) todo:             usize,
     // decoder options
     pub(crate) options:          ZuneJpegOptions,
+    /// Output colorspace asked for, when a grayscale image replaced it in the options
+    pub(crate) requested_colorspace: Option<ColorSpace>,
 }
 
 impl Decoder
@@ -166,6 +168,7 @@ impl Decoder
             todo: 0x7fff_ffff,
             // options
             options,
+            requested_colorspace: None,
         }
     }
     /// Decode a buffer already in memory
@@ -242,7 +245,13 @@ impl Decoder
     {
         // details of an image decoded earlier (tables, sampling factors, restart interval..)
         // do not apply to this one
-        *self = Decoder::default(self.options);
+        let mut options = self.options;
+
+        if let Some(colorspace) = self.requested_colorspace
+        {
+            options = options.set_out_colorspace(colorspace);
+        }
+        *self = Decoder::default(options);
 
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
@@ -569,6 +578,7 @@ impl Decoder
     pub fn rgba(&mut self)
     {
         // told you so
+        self.requested_colorspace = None;
         self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
     }
 
@@ -586,6 +596,7 @@ impl Decoder
     )]
     pub fn set_output_colorspace(&mut self, colorspace: ColorSpace)
     {
+        self.requested_colorspace = None;
         self.options = self.options.set_out_colorspace(colorspace);
     }
     #[must_use]
diff --git a/src/headers.rs b/src/headers.rs
index d0a8812..cc3b055 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -297,6 +297,11 @@ where
         // and that to us translates to setting input and output
         // colorspaces to zero
         img.input_colorspace = ColorSpace::GRAYSCALE;
+        // images decoded later still get what the user asked for
+        if img.requested_colorspace.is_none()
+        {
+            img.requested_colorspace = Some(img.options.get_out_colorspace());
+        }
         img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
     }
 
-- 
2.43.0


From 96f61da05a121bdb3ceaf2a4a24660a3ab19033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:56 +0000
Subject: [PATCH 26/32] fix: reject thread counts that do not fit 32 bits
 instead of panicking

---
 src/decoder.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 97eb12a..8c7cbc4 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -632,18 +632,16 @@ impl Decoder
     /// img.set_num_threads(3).unwrap(); // spawn only three threads
     /// ```
     #[deprecated(since = "0.2.0", note = "Use new_with_options to set options")]
-    #[allow(clippy::cast_possible_truncation)]
     pub fn set_num_threads(&mut self, threads: usize) -> Result<(), DecodeErrors>
     {
-        if threads == 0
-        {
-            return Err(DecodeErrors::FormatStatic(
-                "Cannot set zero threads to decode image",
-            ));
-        }
-        self.options = self
-            .options
-            .set_num_threads(NonZeroU32::new(threads as u32).unwrap());
+        let count = u32::try_from(threads).map_err(|_| {
+            DecodeErrors::Format(format!("Cannot use {} threads to decode image", threads))
+        })?;
+
+        let count = NonZeroU32::new(count).ok_or(DecodeErrors::FormatStatic(
+            "Cannot set zero threads to decode image",
+        ))?;
+        self.options = self.options.set_num_threads(count);
         Ok(())
     }
     /// Check that all components have the correct width and height
-- 
2.43.0


From 8e308513744618f70af67feb101fbaee4cc66a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:26 +0000
Subject: [PATCH 27/32] fix: accept 0xFF fill bytes before the markers of the
 headers

---
 src/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 8c7cbc4..6ba73f5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -269,7 +269,8 @@ impl Decoder
             let m = read_byte(buf)?;
             // Last byte should be 0xFF to confirm existence of a marker since markers look
             // like OxFF(some marker data)
-            if last_byte == 0xFF
+            // (a marker may be preceded by any number of 0xFF fill bytes)
+            if last_byte == 0xFF && m != 0xFF
             {
                 let marker = Marker::from_u8(m);
 
-- 
2.43.0


From 12385d4aef735f16ffdd360b236fcfe42a2fc929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:17 +0000
Subject: [PATCH 28/32] fix: application segments other than APP0, APP1 and
 APP14 may precede a progressive scan

---
 src/marker.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 6e44034..0e604f8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -70,9 +70,7 @@ impl Marker
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => None,
         }
     }
-- 
2.43.0


From c93eb75392bdf0d5aba54d756db893df697f4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:30 +0000
Subject: [PATCH 29/32] fix: reject sampling factors above 4

---
 src/components.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/components.rs b/src/components.rs
index e76339a..7a5c026 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -73,6 +73,14 @@ impl Components
                 quantization_table_number, MAX_COMPONENTS
             )));
         }
+        // B.2.2: sampling factors are between 1 and 4
+        if horizontal_sample > 4 || vertical_sample > 4
+        {
+            return Err(DecodeErrors::Format(format!(
+                "Sampling factors {}x{} are out of range, expected values between 1 and 4",
+                horizontal_sample, vertical_sample
+            )));
+        }
         // check that upsampling ratios are powers of two
         // if these fail, it's probably a corrupt image.
         if !horizontal_sample.is_power_of_two()
-- 
2.43.0


From 4e269562a5ad0a4fc23259877d2e0579b81e91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 30/32] fix: reject out-of-range DC table selectors in
 non-interleaved progressive scans

---
 src/mcu_prog.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 56cdcf8..ecc33fb 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -31,7 +31,6 @@ use std::sync::Arc;
 
 use crate::bitstream::BitStream;
 use crate::components::{ComponentID, SubSampRatios};
-use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
 use crate::headers::{parse_huffman, parse_sos};
@@ -311,7 +310,7 @@ impl Decoder
 
                     if self.spec_start == 0
                     {
-                        let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
+                        let pos = self.components[k].dc_huff_table;
                         let dc_table = self.dc_huffman_tables.get(pos)
                             .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", pos)))?
                             .as_ref()
-- 
2.43.0


From eccb1ed6fed772df9d28d2feb603be5b8798e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:32 +0000
Subject: [PATCH 31/32] fix: wrap in the refinement of an extreme coefficient
 instead of overflowing

---
 src/bitstream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 25f899a..a218224 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -572,11 +572,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
 
@@ -633,11 +633,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
                     }
-- 
2.43.0


From eac3ad02a5fd463ee059f474c84b1bfc368dda89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:32 +0000
Subject: [PATCH 32/32] fix: wrap in the portable IDCT for extreme coefficients
 instead of overflowing

---
 src/idct/scalar.rs | 91 ++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index 3035b8c..98df926 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -1,6 +1,8 @@
 //! Platform independent IDCT algorithm
 //!
 //! Not as fast as AVX one.
+use std::num::Wrapping;
+
 use crate::misc::Aligned32;
 
 const SCALE_BITS: i32 = 512 + 65536 + (128 << 17);
@@ -25,7 +27,8 @@ pub fn dequantize_and_idct_int(
 
     let mut out_vector = vec![0; vector.len()];
 
-    let mut tmp = [0; 64];
+    // Corrupt images may contain coefficients too large for the arithmetic below
+    let mut tmp = [Wrapping(0); 64];
 
     let chunks = vector.len() * v_samp / samp_factors;
     // calculate position
@@ -83,11 +86,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = dequantize(vector[ptr + 48], qt_table.0[ptr + 48]);
 
-                    let p1 = (p2 + p3).wrapping_mul(2217);
+                    let p1 = (p2 + p3) * Wrapping(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * Wrapping(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * Wrapping(3135);
 
                     let p2 = dequantize(vector[ptr], qt_table.0[ptr]);
 
@@ -97,13 +100,13 @@ pub fn dequantize_and_idct_int(
 
                     let t1 = fsh(p2 - p3);
 
-                    let x0 = t0 + t3 + 512;
+                    let x0 = t0 + t3 + Wrapping(512);
 
-                    let x3 = t0 - t3 + 512;
+                    let x3 = t0 - t3 + Wrapping(512);
 
-                    let x1 = t1 + t2 + 512;
+                    let x1 = t1 + t2 + Wrapping(512);
 
-                    let x2 = t1 - t2 + 512;
+                    let x2 = t1 - t2 + Wrapping(512);
 
                     // odd part
                     let mut t0 = dequantize(vector[ptr + 56], qt_table.0[ptr + 56]);
@@ -122,23 +125,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * 4816;
+                    let p5 = (p3 + p4) * Wrapping(4816);
 
-                    t0 *= 1223;
+                    t0 *= Wrapping(1223);
 
-                    t1 *= 8410;
+                    t1 *= Wrapping(8410);
 
-                    t2 *= 12586;
+                    t2 *= Wrapping(12586);
 
-                    t3 *= 6149;
+                    t3 *= Wrapping(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * Wrapping(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * Wrapping(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * Wrapping(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * Wrapping(-1597);
 
                     t3 += p1 + p4;
 
@@ -177,11 +180,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = tmp[i + 6];
 
-                    let p1 = (p2 + p3) * 2217;
+                    let p1 = (p2 + p3) * Wrapping(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * Wrapping(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * Wrapping(3135);
 
                     let p2 = tmp[i];
 
@@ -197,13 +200,13 @@ pub fn dequantize_and_idct_int(
                     // so we want to round that, which means adding 0.5 * 1<<17,
                     // aka 65536. Also, we'll end up with -128 to 127 that we want
                     // to encode as 0..255 by adding 128, so we'll add that before the shift
-                    let x0 = t0 + t3 + SCALE_BITS;
+                    let x0 = t0 + t3 + Wrapping(SCALE_BITS);
 
-                    let x3 = t0 - t3 + SCALE_BITS;
+                    let x3 = t0 - t3 + Wrapping(SCALE_BITS);
 
-                    let x1 = t1 + t2 + SCALE_BITS;
+                    let x1 = t1 + t2 + Wrapping(SCALE_BITS);
 
-                    let x2 = t1 - t2 + SCALE_BITS;
+                    let x2 = t1 - t2 + Wrapping(SCALE_BITS);
 
                     // odd part
                     let mut t0 = tmp[i + 7];
@@ -222,23 +225,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * f2f(1.175875602);
+                    let p5 = (p3 + p4) * Wrapping(f2f(1.175875602));
 
-                    t0 = t0.wrapping_mul(1223);
+                    t0 *= Wrapping(1223);
 
-                    t1 = t1.wrapping_mul(8410);
+                    t1 *= Wrapping(8410);
 
-                    t2 = t2.wrapping_mul(12586);
+                    t2 *= Wrapping(12586);
 
-                    t3 = t3.wrapping_mul(6149);
+                    t3 *= Wrapping(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * Wrapping(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * Wrapping(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * Wrapping(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * Wrapping(-1597);
 
                     t3 += p1 + p4;
 
@@ -253,21 +256,21 @@ pub fn dequantize_and_idct_int(
                         .try_into()
                         .unwrap();
 
-                    out[0] = clamp((x0 + t3) >> 17);
+                    out[0] = clamp(((x0 + t3) >> 17).0);
 
-                    out[1] = clamp((x1 + t2) >> 17);
+                    out[1] = clamp(((x1 + t2) >> 17).0);
 
-                    out[2] = clamp((x2 + t1) >> 17);
+                    out[2] = clamp(((x2 + t1) >> 17).0);
 
-                    out[3] = clamp((x3 + t0) >> 17);
+                    out[3] = clamp(((x3 + t0) >> 17).0);
 
-                    out[4] = clamp((x3 - t0) >> 17);
+                    out[4] = clamp(((x3 - t0) >> 17).0);
 
-                    out[5] = clamp((x2 - t1) >> 17);
+                    out[5] = clamp(((x2 - t1) >> 17).0);
 
-                    out[6] = clamp((x1 - t2) >> 17);
+                    out[6] = clamp(((x1 - t2) >> 17).0);
 
-                    out[7] = clamp((x0 - t3) >> 17);
+                    out[7] = clamp(((x0 - t3) >> 17).0);
 
                     i += 8;
 
@@ -292,7 +295,7 @@ fn f2f(x: f32) -> i32
 
 #[inline]
 /// Multiply a number by 4096
-fn fsh(x: i32) -> i32
+fn fsh(x: Wrapping<i32>) -> Wrapping<i32>
 {
     x << 12
 }
@@ -306,7 +309,7 @@ fn clamp(a: i32) -> i16
 }
 
 #[inline]
-fn dequantize(a: i16, b: i32) -> i32
+fn dequantize(a: i16, b: i32) -> Wrapping<i32>
 {
-    i32::from(a) * b
+    Wrapping(i32::from(a)) * Wrapping(b)
 }
-- 
2.43.0

