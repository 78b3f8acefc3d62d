From 180a35f6afd8905bb129e7dced9f09d830480b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 01/24] fix: build without the alloc feature

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 19 ++++++++-----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..f07c03b 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -453,20 +453,16 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
-    let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
+    let block_width: usize = if is2bpp { 8 } else { 4 };
+    let num_blocks_x: usize = width.div_ceil(block_width);
+    let num_blocks_y: usize = height.div_ceil(4);
     let num_blocks: usize = num_blocks_x * num_blocks_y;
-    let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
-        num_blocks_x
-    } else {
-        num_blocks_y
-    };
+    let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
     if data.len() < num_blocks * block_width {
         return Err("The data buffer is too small!");
@@ -520,9 +516,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, block_width, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0


From 05832db7e848ba12261add9c3d333715e47e78b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 02/24] fix: require all data of a 4bpp PVRTC image

---
 src/pvrtc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index f07c03b..8b41b6d 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -385,7 +385,7 @@ pub fn decode_pvrtc(
     let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
@@ -464,7 +464,7 @@ pub fn decode_pvrtc(
     let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
-- 
2.43.0


From 390b8d0d61e17c4f24dc475f18c1793efbcdae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 03/24] fix: report image sizes that overflow, accept empty
 images

---
 src/macros.rs | 11 +++++++++--
 src/pvrtc.rs  | 25 +++++++++++++++++++------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..9ff1ff5 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -7,15 +7,22 @@ macro_rules! block_decoder{
                 const BLOCK_WIDTH: usize = $block_width;
                 const BLOCK_HEIGHT: usize = $block_height;
                 const BLOCK_SIZE: usize = BLOCK_WIDTH * BLOCK_HEIGHT;
+                if width == 0 || height == 0 {
+                    return Ok(());
+                }
                 let num_blocks_x: usize = width.div_ceil(BLOCK_WIDTH);
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
+                let data_size = num_blocks_x
+                    .checked_mul(num_blocks_y)
+                    .and_then(|num_blocks| num_blocks.checked_mul($raw_block_size));
+                if data_size.map_or(true, |size| data.len() < size) {
                     return Err("Not enough data to decode image!");
                 }
 
-                if image.len() < width * height {
+                let image_size = width.checked_mul(height);
+                if image_size.map_or(true, |size| image.len() < size) {
                     return Err("Image buffer is too small!");
                 }
 
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 8b41b6d..8e99ef4 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -379,22 +379,29 @@ pub fn decode_pvrtc(
     extern crate alloc;
     use alloc::vec::Vec;
 
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * 8 {
+    let data_size = num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|num_blocks| num_blocks.checked_mul(8));
+    if data_size.map_or(true, |size| data.len() < size) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    let image_size = width.checked_mul(height);
+    if image_size.map_or(true, |size| image.len() < size) {
         return Err("The image buffer is too small!");
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
         return Err("The number of blocks of each side must be a power of 2!");
     }
 
+    let num_blocks: usize = num_blocks_x * num_blocks_y;
     let mut texel_info: Vec<PVRTCTexelInfo> = Vec::with_capacity(num_blocks);
     texel_info.resize(num_blocks, PVRTCTexelInfo::default());
 
@@ -458,16 +465,22 @@ pub fn decode_pvrtc(
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * 8 {
+    let data_size = num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|num_blocks| num_blocks.checked_mul(8));
+    if data_size.map_or(true, |size| data.len() < size) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    let image_size = width.checked_mul(height);
+    if image_size.map_or(true, |size| image.len() < size) {
         return Err("The image buffer is too small!");
     }
     if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
-- 
2.43.0


From 6b4fbc3aee533b3f6423c7df6aff1b65edbbd6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 04/24] fix: report ASTC footprints and sizes that overflow or
 divide by zero

---
 src/astc.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..9aed33a 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1779,24 +1779,34 @@ pub fn decode_astc(
     block_height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
+    if block_width < 2 || block_height < 2 {
+        return Err("Block size is too small!");
+    }
+    let block_size = block_width.checked_mul(block_height);
+    if block_size.map_or(true, |size| size > 144) {
+        return Err("Block size is too big!");
+    }
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
+
     let num_blocks_x = width.div_ceil(block_width);
     let num_blocks_y = height.div_ceil(block_height);
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
+    let data_size = num_blocks_x
+        .checked_mul(num_blocks_y)
+        .and_then(|num_blocks| num_blocks.checked_mul(16));
+    if data_size.map_or(true, |size| data.len() < size) {
         return Err("Not enough data to decode image!");
     }
 
-    let expected_image_size = width * height;
-    if image.len() < expected_image_size {
+    let expected_image_size = width.checked_mul(height);
+    if expected_image_size.map_or(true, |size| image.len() < size) {
         return Err("Image buffer is too small!");
     }
 
-    if block_width * block_height > 144 {
-        return Err("Block size is too big!");
-    }
-
     (0..num_blocks_y).for_each(|by| {
         (0..num_blocks_x).for_each(|bx| {
             decode_astc_block(&data[data_offset..], block_width, block_height, &mut buffer);
-- 
2.43.0


From 0e33e41d546082323bf44a1a162882c8a30c7f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 05/24] fix: decode illegal ASTC blocks to the error colour

---
 src/astc.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 9aed33a..28841bf 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -244,7 +244,7 @@ fn select_color_hdr(v0: i32, v1: i32, weight: i32) -> u8 {
 
 #[inline]
 fn f32_to_u8(f: f32) -> u8 {
-    floor(f * 255.0).clamp(0.0, 255.0) as u8
+    floor((f * 255.0).clamp(0.0, 255.0)) as u8
 }
 
 #[inline]
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+// returns false for an illegal block
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,13 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.dual_plane && block_data.part_num == 4)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,7 +667,10 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
-    let remain_bits = 128 - config_bits - weight_bits as usize;
+    let remain_bits = match 128_usize.checked_sub(config_bits + weight_bits as usize) {
+        Some(bits) => bits,
+        None => return false,
+    };
 
     block_data.endpoint_value_num = 0;
 
@@ -683,9 +694,10 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         }
         if endpoint_bits <= remain_bits {
             block_data.cem_range = i;
-            break;
+            return block_data.endpoint_value_num <= 18;
         }
     }
+    false
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1773,10 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            outbuf[0..(block_width * block_height)].fill(color(255, 0, 255, 255));
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From 636c85100e9c5f14dd8ce4970be886f538d71a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 06/24] fix: keep Crunch header and bit reader inside the data

---
 src/crunch/crn_consts.rs       |  2 ++
 src/crunch/crn_decomp.rs       |  9 ++++-
 src/crunch/crn_symbol_codec.rs | 65 ++++++++++++++--------------------
 3 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/src/crunch/crn_consts.rs b/src/crunch/crn_consts.rs
index f16fc2f..4463610 100644
--- a/src/crunch/crn_consts.rs
+++ b/src/crunch/crn_consts.rs
@@ -15,6 +15,8 @@ pub const BIT_BUF_SIZE: usize = 32;
 
 pub const CRNMAX_LEVELS: u32 = 16;
 
+pub const CRNMAX_FACES: u32 = 6;
+
 // The crnd library assumes all allocation blocks have at least CRND_MIN_ALLOC_ALIGNMENT alignment.
 // pub const CRND_MIN_ALLOC_ALIGNMENT: usize = 8;
 
diff --git a/src/crunch/crn_decomp.rs b/src/crunch/crn_decomp.rs
index ed5649a..c5af79c 100644
--- a/src/crunch/crn_decomp.rs
+++ b/src/crunch/crn_decomp.rs
@@ -120,7 +120,7 @@ impl CrnHeader {
     pub const MIN_SIZE: u32 = 74;
 
     pub fn crnd_get_header(&mut self, p_data: &[u8], data_size: u32) -> bool {
-        if data_size < CrnHeader::MIN_SIZE {
+        if data_size < CrnHeader::MIN_SIZE || p_data.len() < data_size as usize {
             return false;
         }
         *self = CrnHeader::default();
@@ -144,6 +144,13 @@ impl CrnHeader {
         self.alpha_selectors.assign_from_buffer(&p_data[57..]);
         self.tables_size.assign_from_buffer(&p_data[65..]);
         self.tables_ofs.assign_from_buffer(&p_data[67..]);
+        let levels = self.levels.cast_to_uint();
+        if !(1..=CRNMAX_LEVELS).contains(&levels)
+            || !(1..=CRNMAX_FACES).contains(&self.faces.cast_to_uint())
+            || p_data.len() < 70 + levels as usize * 4
+        {
+            return false;
+        }
         self.level_ofs = alloc::vec![];
         for i in 0..self.levels.cast_to_uint() as usize {
             self.level_ofs.push(CrnPackedUint { buf: [0, 0, 0, 0] });
diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 66edf4d..e22618a 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -6,7 +6,6 @@ use super::crn_utils::*;
 pub struct symbol_codec<'slice> {
     pub p_decode_buf: &'slice [u8],
     pub p_decode_buf_next: &'slice [u8],
-    pub p_decode_buf_end: *const u8,
     pub decode_buf_size: u32,
     pub bit_buf: u32,
     pub bit_count: i32,
@@ -17,7 +16,6 @@ impl Default for symbol_codec<'_> {
         symbol_codec {
             p_decode_buf: &[0; 0],
             p_decode_buf_next: &[0; 0],
-            p_decode_buf_end: core::ptr::null(),
             decode_buf_size: 0,
             bit_buf: 0,
             bit_count: 0,
@@ -27,13 +25,12 @@ impl Default for symbol_codec<'_> {
 
 impl<'slice> symbol_codec<'slice> {
     pub fn start_decoding(&mut self, p_buf: &'slice [u8], buf_size: u32) -> bool {
-        if buf_size == 0 {
+        if buf_size == 0 || p_buf.len() < buf_size as usize {
             return false;
         }
-        self.p_decode_buf = p_buf;
-        self.p_decode_buf_next = p_buf;
+        self.p_decode_buf = &p_buf[..buf_size as usize];
+        self.p_decode_buf_next = self.p_decode_buf;
         self.decode_buf_size = buf_size;
-        self.p_decode_buf_end = (&p_buf[(buf_size - 1) as usize]) as *const u8;
         self.get_bits_init();
         true
     }
@@ -175,35 +172,13 @@ impl<'slice> symbol_codec<'slice> {
         let p_tables = &model.p_decode_tables;
         if self.bit_count < 24 {
             if self.bit_count < 16 {
-                let mut c0: u32 = 0;
-                let mut c1: u32 = 0;
-                let mut p = self.p_decode_buf_next;
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c0 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c1 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                self.p_decode_buf_next = p;
+                let c0: u32 = self.next_byte();
+                let c1: u32 = self.next_byte();
                 self.bit_count += 16;
                 let c: u32 = (c0 << 8) | c1;
                 self.bit_buf |= c << (32 - self.bit_count);
             } else {
-                let c: u32;
-                if (&(self.p_decode_buf_next[0]) as *const u8) <= self.p_decode_buf_end {
-                    c = self.p_decode_buf_next[0] as u32;
-                    if (&(self.p_decode_buf_next[0]) as *const u8) < self.p_decode_buf_end {
-                        self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                    }
-                } else {
-                    c = 0
-                };
+                let c: u32 = self.next_byte();
                 self.bit_count += 8;
                 self.bit_buf |= c << (32 - self.bit_count);
             }
@@ -223,6 +198,10 @@ impl<'slice> symbol_codec<'slice> {
             }
         } else {
             len = p_tables.decode_start_code_size;
+            if !(1..=MAX_EXPECTED_CODE_SIZE as u32).contains(&len) {
+                // the model has no symbols
+                return Err(false);
+            }
             loop {
                 if k <= p_tables.max_codes[(len - 1) as usize] {
                     break;
@@ -234,7 +213,10 @@ impl<'slice> symbol_codec<'slice> {
             if (val_ptr as u32) >= model.total_syms {
                 return Err(false);
             }
-            sym = p_tables.sorted_symbol_order[val_ptr as usize] as u32;
+            sym = match p_tables.sorted_symbol_order.get(val_ptr as usize) {
+                Some(&s) => s as u32,
+                None => return Err(false),
+            };
         }
         self.bit_buf <<= len;
         self.bit_count -= len as i32;
@@ -243,6 +225,17 @@ impl<'slice> symbol_codec<'slice> {
 
     pub fn stop_decoding(&mut self) {}
 
+    // the next byte of the section, zero behind its end
+    fn next_byte(&mut self) -> u32 {
+        match self.p_decode_buf_next.split_first() {
+            Some((&c, rest)) => {
+                self.p_decode_buf_next = rest;
+                c as u32
+            }
+            None => 0,
+        }
+    }
+
     fn get_bits_init(&mut self) {
         self.bit_buf = 0;
         self.bit_count = 0;
@@ -253,13 +246,7 @@ impl<'slice> symbol_codec<'slice> {
             return Err(false);
         }
         while self.bit_count < num_bits as i32 {
-            let mut c: u32 = 0;
-            if self.p_decode_buf_next[0] as *const u8 <= self.p_decode_buf_end {
-                c = self.p_decode_buf_next[0] as u32;
-                if (self.p_decode_buf_next[0] as *const u8) < self.p_decode_buf_end {
-                    self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                }
-            }
+            let c: u32 = self.next_byte();
             self.bit_count += 8;
             if self.bit_count > BIT_BUF_SIZE as i32 {
                 return Err(false);
-- 
2.43.0


From 42221a7d6027c955863a95fe95b40e71301a1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 07/24] fix: keep Crunch sections inside the data

---
 src/crunch/crn_unpacker.rs      | 12 ++++++------
 src/crunch/crn_utils.rs         |  6 ++++++
 src/unitycrunch/crn_unpacker.rs | 17 +++++++++--------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3a2124a..b22d5c6 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -64,7 +64,7 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -139,7 +139,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
 
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -191,7 +191,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_selectors = self.p_header.color_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -273,7 +273,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -310,7 +310,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_selectors = self.p_header.alpha_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -399,7 +399,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            section(self.p_data, cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
diff --git a/src/crunch/crn_utils.rs b/src/crunch/crn_utils.rs
index 4ba3c77..d6d44e9 100644
--- a/src/crunch/crn_utils.rs
+++ b/src/crunch/crn_utils.rs
@@ -18,6 +18,12 @@ pub fn total_bits(mut v: u32) -> u32 {
     l
 }
 
+// the data from an offset on, empty when the offset lies behind its end
+#[inline]
+pub fn section(data: &[u8], ofs: u32) -> &[u8] {
+    data.get(ofs as usize..).unwrap_or_default()
+}
+
 #[inline]
 pub fn limit(x: &mut u32, n: u32) {
     let v: i32 = (*x as i32) - n as i32;
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8df792b..08aaac1 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -3,6 +3,7 @@ use crate::crunch::crn_consts::*;
 use crate::crunch::crn_decomp::CrnHeader;
 use crate::crunch::crn_static_huffman_data_model::*;
 use crate::crunch::crn_symbol_codec::symbol_codec;
+use crate::crunch::crn_utils::section;
 use crate::macros::*;
 extern crate alloc;
 
@@ -71,7 +72,7 @@ impl<'slice> CrnUnpacker<'slice> {
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -164,7 +165,7 @@ impl<'slice> CrnUnpacker<'slice> {
         self.color_endpoints.resize(num_color_endpoints as usize, 0);
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -239,7 +240,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
         // Return value here is ignored in the original code.
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -299,7 +300,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -332,7 +333,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -383,7 +384,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etc(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -457,7 +458,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etcs(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -536,7 +537,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            section(self.p_data, cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
-- 
2.43.0


From 937095eb6046b38304819e21380666d5cc89fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 08/24] fix: reject Crunch models with symbols outside their
 palettes

---
 src/crunch/crn_static_huffman_data_model.rs |  8 +++
 src/crunch/crn_unpacker.rs                  | 38 ++++++++++++--
 src/unitycrunch/crn_unpacker.rs             | 56 +++++++++++++++++----
 3 files changed, 86 insertions(+), 16 deletions(-)

diff --git a/src/crunch/crn_static_huffman_data_model.rs b/src/crunch/crn_static_huffman_data_model.rs
index eb7f05d..b95da3e 100644
--- a/src/crunch/crn_static_huffman_data_model.rs
+++ b/src/crunch/crn_static_huffman_data_model.rs
@@ -250,6 +250,14 @@ impl StaticHuffmanDataModel {
         decoder_table_bits
     }
 
+    // Returns whether the model only codes symbols below num_syms.
+    pub fn has_only_syms_below(&self, num_syms: u32) -> bool {
+        self.code_sizes
+            .iter()
+            .skip(num_syms as usize)
+            .all(|&code_size| code_size == 0)
+    }
+
     pub fn prepare_decoder_tables(&mut self) -> bool {
         let total_syms = self.code_sizes.len();
         if !(total_syms >= 1 && total_syms as u32 <= MAX_SUPPORTED_SYMS as u32) {
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index b22d5c6..ed5eaee 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -110,7 +110,15 @@ impl<'slice> CrnUnpacker<'slice> {
             }
         }
         self.codec.stop_decoding();
-        true
+        // the deltas are added to palette indices
+        self.endpoint_delta_dm[0]
+            .has_only_syms_below(self.p_header.color_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[0]
+                .has_only_syms_below(self.p_header.color_selectors.num.cast_to_uint())
+            && self.endpoint_delta_dm[1]
+                .has_only_syms_below(self.p_header.alpha_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[1]
+                .has_only_syms_below(self.p_header.alpha_selectors.num.cast_to_uint())
     }
     pub fn decode_palettes(&mut self) -> bool {
         if self.p_header.color_endpoints.num.cast_to_uint() != 0 {
@@ -139,7 +147,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
 
         res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.color_endpoints.ofs.cast_to_uint(),
+            ),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -191,7 +202,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_selectors = self.p_header.color_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.color_selectors.ofs.cast_to_uint(),
+            ),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -202,6 +216,10 @@ impl<'slice> CrnUnpacker<'slice> {
         if !res {
             return res;
         }
+        if !dm.has_only_syms_below((MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS) as u32)
+        {
+            return false;
+        }
         let mut delta0 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut delta1 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut l: i32 = -(MAX_SELECTOR_VALUE as i32);
@@ -273,7 +291,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.alpha_endpoints.ofs.cast_to_uint(),
+            ),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -310,7 +331,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_selectors = self.p_header.alpha_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.alpha_selectors.ofs.cast_to_uint(),
+            ),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -321,6 +345,10 @@ impl<'slice> CrnUnpacker<'slice> {
         if !res {
             return res;
         }
+        if !dm.has_only_syms_below((MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS) as u32)
+        {
+            return false;
+        }
         let mut delta0 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut delta1 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut l: i32 = -(MAX_SELECTOR_VALUE as i32);
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 08aaac1..8f240da 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -118,7 +118,15 @@ impl<'slice> CrnUnpacker<'slice> {
             }
         }
         self.codec.stop_decoding();
-        true
+        // the deltas are added to palette indices
+        self.endpoint_delta_dm[0]
+            .has_only_syms_below(self.p_header.color_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[0]
+                .has_only_syms_below(self.p_header.color_selectors.num.cast_to_uint())
+            && self.endpoint_delta_dm[1]
+                .has_only_syms_below(self.p_header.alpha_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[1]
+                .has_only_syms_below(self.p_header.alpha_selectors.num.cast_to_uint())
     }
     pub fn decode_palettes(&mut self) -> bool {
         if self.p_header.color_endpoints.num.cast_to_uint() != 0 {
@@ -165,7 +173,10 @@ impl<'slice> CrnUnpacker<'slice> {
         self.color_endpoints.resize(num_color_endpoints as usize, 0);
         let mut res: bool;
         res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.color_endpoints.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.color_endpoints.ofs.cast_to_uint(),
+            ),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -190,10 +201,12 @@ impl<'slice> CrnUnpacker<'slice> {
         for _ in 0..num_color_endpoints {
             if has_etc_color_blocks {
                 for b in [0, 8, 16, 24] {
-                    a += match self.codec.decode(&dm[0]) {
-                        Ok(s) => s,
-                        Err(_) => return false,
-                    } << b;
+                    a = a.wrapping_add(
+                        match self.codec.decode(&dm[0]) {
+                            Ok(s) => s,
+                            Err(_) => return false,
+                        } << b,
+                    );
                 }
                 a &= 0x1F1F1F1F;
                 if has_subblocks {
@@ -240,7 +253,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
         // Return value here is ignored in the original code.
         res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.color_selectors.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.color_selectors.ofs.cast_to_uint(),
+            ),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -300,7 +316,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.alpha_endpoints.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.alpha_endpoints.ofs.cast_to_uint(),
+            ),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -333,7 +352,10 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.alpha_selectors.ofs.cast_to_uint(),
+            ),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -384,7 +406,10 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etc(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.alpha_selectors.ofs.cast_to_uint(),
+            ),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -458,7 +483,10 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etcs(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            section(self.p_data, self.p_header.alpha_selectors.ofs.cast_to_uint()),
+            section(
+                self.p_data,
+                self.p_header.alpha_selectors.ofs.cast_to_uint(),
+            ),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -1013,6 +1041,9 @@ impl<'slice> CrnUnpacker<'slice> {
         output_height: u32,
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
+        if num_color_endpoints == 0 {
+            return Err("Failed to decode ETC1 Texture.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
@@ -1129,6 +1160,9 @@ impl<'slice> CrnUnpacker<'slice> {
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
+        if num_color_endpoints == 0 {
+            return Err("Failed to decode ETC2 Texture.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
-- 
2.43.0


From f8d112fe6048454f99ba0c0c54d98b3ada61a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 09/24] fix: reject Crunch sizes that overflow or exceed the
 data

---
 src/crunch.rs                   | 4 +++-
 src/crunch/crn_unpacker.rs      | 9 +++++++--
 src/unitycrunch.rs              | 4 +++-
 src/unitycrunch/crn_unpacker.rs | 9 +++++++--
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index 6f41e1f..c0cb868 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -31,7 +31,9 @@ pub fn crunch_unpack_level(
     let blocks_x: u32 = max(1, (width + 3) >> 2);
     let blocks_y: u32 = max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("Image size is too large!")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index ed5eaee..67a44e1 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -459,10 +459,15 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
-        if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
+        if (dst_size_in_bytes as u64) < row_pitch_in_bytes as u64 * blocks_y as u64 {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
+        let faces = self.p_header.faces.cast_to_uint();
+        // every block takes at least one bit
+        if src_size_in_bytes as u64 * 8 < blocks_x as u64 * blocks_y as u64 * faces as u64 {
+            return Err("Not enough data to decode image!");
+        }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * faces as usize];
         let chunks_x: u32 = (blocks_x + 1) >> 1;
         let chunks_y: u32 = (blocks_y + 1) >> 1;
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index ae4940e..410f0cb 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -22,7 +22,9 @@ pub fn unity_crunch_unpack_level(
     let blocks_x: u32 = core::cmp::max(1, (width + 3) >> 2);
     let blocks_y: u32 = core::cmp::max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("Image size is too large!")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8f240da..2f0e61a 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -600,10 +600,15 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
-        if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
+        if (dst_size_in_bytes as u64) < row_pitch_in_bytes as u64 * blocks_y as u64 {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
+        let faces = self.p_header.faces.cast_to_uint();
+        // every block takes at least one bit
+        if src_size_in_bytes as u64 * 8 < blocks_x as u64 * blocks_y as u64 * faces as u64 {
+            return Err("Not enough data to decode image!");
+        }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * faces as usize];
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
-- 
2.43.0


From efc330478e092c6c505b39a7478bbc9ce061b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 10/24] fix: unpack Crunch faces and rows with an odd number of
 blocks

---
 src/crunch/crn_unpacker.rs      | 16 ++++-----
 src/unitycrunch/crn_unpacker.rs | 60 ++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 67a44e1..065b485 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -552,8 +552,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let row_pitch_in_dwords = row_pitch_in_bytes >> 2;
         let c_bytes_per_block: i32 = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -721,8 +721,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -879,8 +879,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha0_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -999,8 +999,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha1_selector_index: u32 = 0;
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 2f0e61a..0182d70 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -673,15 +673,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let delta_pitch_in_dwords: i32 = (output_pitch_in_bytes >> 2) as i32 - (width << 1) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut color_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let face_size_in_dwords: usize =
+            (output_pitch_in_bytes >> 2) as usize * output_height as usize;
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -735,7 +737,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add(delta_pitch_in_dwords as usize);
             }
         }
         Ok(true)
@@ -751,7 +753,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let delta_pitch_in_dwords: i32 = (output_pitch_in_bytes >> 2) as i32 - (width << 2) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -759,8 +761,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let face_size_in_dwords: usize =
+            (output_pitch_in_bytes >> 2) as usize * output_height as usize;
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -843,7 +847,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add(delta_pitch_in_dwords as usize);
             }
         }
         Ok(true)
@@ -858,15 +862,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let delta_pitch_in_dwords: i32 = (output_pitch_in_bytes >> 2) as i32 - (width << 1) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let face_size_in_dwords: usize =
+            (output_pitch_in_bytes >> 2) as usize * output_height as usize;
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -923,7 +929,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add(delta_pitch_in_dwords as usize);
             }
         }
         Ok(true)
@@ -938,7 +944,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let delta_pitch_in_dwords: i32 = (output_pitch_in_bytes >> 2) as i32 - (width << 2) as i32;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -946,8 +952,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut alpha0_endpoint_index: usize = 0;
         let mut alpha1_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let face_size_in_dwords: usize =
+            (output_pitch_in_bytes >> 2) as usize * output_height as usize;
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -1033,7 +1041,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add(delta_pitch_in_dwords as usize);
             }
         }
         Ok(true)
@@ -1051,7 +1059,7 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let delta_pitch_in_dwords: i32 = (output_pitch_in_bytes >> 2) as i32 - (width << 1) as i32;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1059,8 +1067,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let face_size_in_dwords: usize =
+            (output_pitch_in_bytes >> 2) as usize * output_height as usize;
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -1151,7 +1161,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add(delta_pitch_in_dwords as usize);
             }
         }
         Ok(true)
@@ -1170,7 +1180,7 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let delta_pitch_in_dwords: i32 = (output_pitch_in_bytes >> 2) as i32 - (width << 2) as i32;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1180,8 +1190,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut diagonal_alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        let face_size_in_dwords: usize =
+            (output_pitch_in_bytes >> 2) as usize * output_height as usize;
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
+            let mut data_pos: usize = f * face_size_in_dwords;
             for y in 0..height {
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
@@ -1310,7 +1322,7 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
+                data_pos = data_pos.wrapping_add(delta_pitch_in_dwords as usize);
             }
         }
         Ok(true)
-- 
2.43.0


From 27e26e5eb87e29769b57299670f7a9915c166868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 11/24] fix: address Crunch blocks behind 2 GiB

---
 src/crunch/crn_unpacker.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 065b485..b5f0b59 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -694,7 +694,7 @@ impl<'slice> CrnUnpacker<'slice> {
                             }
                         }
                     }
-                    block_dst = (block_dst as i32 + block_delta) as usize;
+                    block_dst = (block_dst as isize + block_delta as isize) as usize;
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
@@ -851,12 +851,12 @@ impl<'slice> CrnUnpacker<'slice> {
                             pd_dst += 4;
                         }
                         pd_dst <<= 2;
-                        pd_dst = ((pd_dst as i32)
-                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32))
+                        pd_dst = ((pd_dst as isize)
+                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32) as isize)
                             as usize;
                         pd_dst >>= 2;
                     }
-                    block_dst = ((block_dst as i32) + block_delta) as usize;
+                    block_dst = (block_dst as isize + block_delta as isize) as usize;
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
@@ -969,12 +969,12 @@ impl<'slice> CrnUnpacker<'slice> {
                             pd_dst += 2;
                         }
                         pd_dst <<= 2;
-                        pd_dst = ((pd_dst as i32)
-                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32))
+                        pd_dst = ((pd_dst as isize)
+                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32) as isize)
                             as usize;
                         pd_dst >>= 2;
                     }
-                    block_dst = ((block_dst as i32) + block_delta) as usize;
+                    block_dst = (block_dst as isize + block_delta as isize) as usize;
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
@@ -1134,12 +1134,12 @@ impl<'slice> CrnUnpacker<'slice> {
                             pd_dst += 4;
                         }
                         pd_dst <<= 2;
-                        pd_dst = ((pd_dst as i32)
-                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32))
+                        pd_dst = ((pd_dst as isize)
+                            + (-c_bytes_per_block * 2 + row_pitch_in_bytes as i32) as isize)
                             as usize;
                         pd_dst >>= 2;
                     }
-                    block_dst = ((block_dst as i32) + block_delta) as usize;
+                    block_dst = (block_dst as isize + block_delta as isize) as usize;
                 }
                 row_dst += (row_pitch_in_bytes * 2) as usize;
             }
-- 
2.43.0


From c1ab9d93c0ac5e012fad701e2ccfdd1df5824895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 12/24] fix: hand Python images of the right length to the
 decoders, report errors and sizes

---
 bindings/python/src/lib.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index e09336c..70c2083 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -56,18 +56,33 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+// allocates an image and lets decode fill it
+fn decode_image<'a>(
+    py: Python<'a>,
+    width: usize,
+    height: usize,
+    decode: impl FnOnce(&mut [u32]) -> Result<(), &'static str>,
+) -> PyResult<&'a PyBytes> {
+    let size = width
+        .checked_mul(height)
+        .and_then(|pixels| pixels.checked_mul(4))
+        .filter(|&size| size <= isize::MAX as usize)
+        .ok_or_else(|| PyErr::new::<pyo3::exceptions::PyValueError, _>("Image size is too large!"))?;
+    PyBytes::new_with(py, size, |image: &mut [u8]| {
+        // bytes objects are aligned for and a multiple of u32
+        let image_u32 =
+            unsafe { std::slice::from_raw_parts_mut(image.as_mut_ptr() as *mut u32, size / 4) };
+        decode(image_u32).map_err(PyErr::new::<pyo3::exceptions::PyValueError, _>)
+    })
+}
+
 macro_rules! pybind {
     ($name:expr) => {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
-                PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
-                    let image_u32 = unsafe { std::mem::transmute(image) };
-                    match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
-                        Ok(_) => {}
-                        Err(e) => return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
-                    }
-                    Ok(())
+                decode_image(py, width, height, |image| {
+                    texture2ddecoder::$name(data.as_bytes(), width, height, image)
                 })
             }
         }
@@ -129,17 +144,14 @@ pub fn decode_astc<'a>(
     block_width: usize,
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
-    PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
-        let image_u32 = unsafe { std::mem::transmute(image) };
+    decode_image(py, width, height, |image| {
         texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
             height,
             block_width,
             block_height,
-            image_u32,
+            image,
         )
-        .unwrap_err();
-        Ok(())
     })
 }
-- 
2.43.0


From 1719274ca9dfe31e3bcd596e681c44bc4addb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 13/24] fix: BC6H blocks with 16 bit endpoints

The mask of a delta coded endpoint does not fit in 16 bits: 1 << 16 overflowed
in checked builds and masked everything away in the others.
---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..b25fd6f 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -675,7 +675,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = ((1u32 << mi.endpoint_bits) - 1) as u16;
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
-- 
2.43.0


From c40e4916cae1beb0dcb18ef3cfd3f1815c6c239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 14/24] fix: check that a Crunch level lies inside the data
 before allocating for it

A damaged level table could make the decoder allocate gigabytes for a container
of a few hundred bytes before it reported the damage.
---
 src/crunch/crn_unpacker.rs      | 6 +++---
 src/unitycrunch/crn_unpacker.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index b5f0b59..35b7f65 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -467,13 +467,13 @@ impl<'slice> CrnUnpacker<'slice> {
         if src_size_in_bytes as u64 * 8 < blocks_x as u64 * blocks_y as u64 * faces as u64 {
             return Err("Not enough data to decode image!");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * faces as usize];
-        let chunks_x: u32 = (blocks_x + 1) >> 1;
-        let chunks_y: u32 = (blocks_y + 1) >> 1;
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
         }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * faces as usize];
+        let chunks_x: u32 = (blocks_x + 1) >> 1;
+        let chunks_y: u32 = (blocks_y + 1) >> 1;
         let format = match self.p_header.format.cast_to_uint() {
             0 => CrnFormat::Dxt1,
             1 => CrnFormat::Dxt3,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 0182d70..b9705a4 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -608,11 +608,11 @@ impl<'slice> CrnUnpacker<'slice> {
         if src_size_in_bytes as u64 * 8 < blocks_x as u64 * blocks_y as u64 * faces as u64 {
             return Err("Not enough data to decode image!");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * faces as usize];
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
         }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * faces as usize];
         let format = match self.p_header.format.cast_to_uint() {
             0 => CrnFormat::Dxt1,
             1 => CrnFormat::Dxt3,
-- 
2.43.0


From 1120f8d94bc3c2c0d080930dc83302249892da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:58 +0000
Subject: [PATCH 15/24] fix: keep all index bits of 64 bit code words on 32 bit
 machines

---
 src/bcn/bc3.rs  | 4 ++--
 src/etc/eac.rs  | 8 ++++----
 src/etc/etc2.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..798f103 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -20,12 +20,12 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
         a[7] = 255;
     }
 
-    let mut d: usize = (u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize;
+    let mut d: u64 = u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16;
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
     outbuf.iter_mut().for_each(|p| {
-        *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
+        *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
 }
diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..526dc7f 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,10 +8,10 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
+        let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
@@ -32,10 +32,10 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
+        let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
diff --git a/src/etc/etc2.rs b/src/etc/etc2.rs
index f8c15ec..ae278cf 100644
--- a/src/etc/etc2.rs
+++ b/src/etc/etc2.rs
@@ -314,9 +314,9 @@ pub fn decode_etc2_a8_block(data: &[u8], outbuf: &mut [u32]) {
         // multiplier != 0
         let multiplier: i32 = (data[1] >> 4) as i32;
         let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-        let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+        let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
         for i in 0..16 {
-            let alpha = (clamp((data[0] as i32) + multiplier * (table[l & 7] as i32)) as u32)
+            let alpha = (clamp((data[0] as i32) + multiplier * (table[(l & 7) as usize] as i32)) as u32)
                 << TRANSPARENT_SHIFT;
             let x: &mut u32 = &mut outbuf[WRITE_ORDER_TABLE_REV[i]];
             *x = (*x & TRANSPARENT_MASK) | alpha;
-- 
2.43.0


From d18fc9de9480ae991cc36c045d71e44185608a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:58 +0000
Subject: [PATCH 16/24] fix: EAC texel indices are big-endian

---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index 526dc7f..f6a9d35 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: u64 = u64::from_le_bytes(data[0..8].try_into().unwrap());
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
-- 
2.43.0


From ed3d35b6faa0562aa94339079918a07bc8f2fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:58 +0000
Subject: [PATCH 17/24] fix: ETC2 alpha is in the same bits of a pixel on
 big-endian machines

---
 src/color.rs | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index e107ac0..f2dca98 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -1,26 +1,8 @@
 #![allow(clippy::too_many_arguments)]
 
-pub static TRANSPARENT_MASK: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        0x00ffffff
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0xffffff00
-    }
-};
+pub static TRANSPARENT_MASK: u32 = 0x00ffffff;
 
-pub static TRANSPARENT_SHIFT: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        24
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0
-    }
-};
+pub static TRANSPARENT_SHIFT: u32 = 24;
 
 #[inline]
 pub const fn color(r: u8, g: u8, b: u8, a: u8) -> u32 {
-- 
2.43.0


From 140a32b911bb61375786ad17902643b596c3d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 18/24] fix: build the Crunch decoders on big-endian machines
 and keep blocks little-endian

---
 src/crunch/crn_consts.rs   |  10 ---
 src/crunch/crn_unpacker.rs | 138 +++++--------------------------------
 src/macros.rs              |   3 -
 3 files changed, 19 insertions(+), 132 deletions(-)

diff --git a/src/crunch/crn_consts.rs b/src/crunch/crn_consts.rs
index 4463610..3de9049 100644
--- a/src/crunch/crn_consts.rs
+++ b/src/crunch/crn_consts.rs
@@ -70,16 +70,6 @@ pub const MOST_PROBABLE_CODELENGTH_CODES: [u8; 21] = [
 
 // pub const cNumMostProbableCodelengthCodes: usize = 21;
 
-#[cfg(target_endian = "little")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = true;
-// #[cfg(target_endian = "little")]
-// pub const c_crnd_big_endian_platform: bool = false;
-
-#[cfg(target_endian = "big")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = false;
-// #[cfg(target_endian = "big")]
-// pub const c_crnd_big_endian_platform: bool = true;
-
 // pub const cDXTBlockShift: usize = 2;
 // pub const cDXTBlockSize: usize = 1 << cDXTBlockShift;
 // pub const cDXT1BytesPerBlock: usize = 8;
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 35b7f65..70cb1e3 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -185,13 +185,8 @@ impl<'slice> CrnUnpacker<'slice> {
             e = (e + de) & 63;
             CRND_HUFF_DECODE!(self.codec, &dm[0], df);
             f = (f + df) & 31;
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = f | (e << 5) | (d << 11) | (c << 16) | (b << 21) | (a << 27);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -246,43 +241,23 @@ impl<'slice> CrnUnpacker<'slice> {
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[8] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = (p_from_linear[cur[8] as usize] as u32)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[0] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
+                | ((p_from_linear[cur[1] as usize] as u32) << 2)
+                | ((p_from_linear[cur[2] as usize] as u32) << 4)
+                | ((p_from_linear[cur[3] as usize] as u32) << 6)
+                | ((p_from_linear[cur[4] as usize] as u32) << 8)
+                | ((p_from_linear[cur[5] as usize] as u32) << 10)
+                | ((p_from_linear[cur[6] as usize] as u32) << 12)
+                | ((p_from_linear[cur[7] as usize] as u32) << 14)
+                | ((p_from_linear[cur[8] as usize] as u32) << 16)
+                | ((p_from_linear[cur[9] as usize] as u32) << 18)
+                | ((p_from_linear[cur[10] as usize] as u32) << 20)
+                | ((p_from_linear[cur[11] as usize] as u32) << 22)
+                | ((p_from_linear[cur[12] as usize] as u32) << 24)
+                | ((p_from_linear[cur[13] as usize] as u32) << 26)
+                | ((p_from_linear[cur[14] as usize] as u32) << 28)
+                | ((p_from_linear[cur[15] as usize] as u32) << 30);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -795,34 +770,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha_selectors = &self.alpha_selectors
                                     [(prev_alpha_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha_endpoints[tile_index as usize] << 16)
-                                            | pAlpha_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha_selectors[1] as u32) << 16)
-                                            | (pAlpha_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (self.m_color_selectors
-                                            [prev_color_selector_index as usize])
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
@@ -934,23 +881,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha0_selectors = &self.alpha_selectors
                                     [(prev_alpha0_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
@@ -1074,36 +1004,6 @@ impl<'slice> CrnUnpacker<'slice> {
                                     [(prev_alpha0_selector_index * 3) as usize..];
                                 let p_alpha1_selectors = &self.alpha_selectors
                                     [(prev_alpha1_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        ((alpha1_endpoints[tile_index as usize] << 16)
-                                            | pAlpha1_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (((pAlpha1_selectors[1] as u32) << 16)
-                                            | (pAlpha1_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
                                 {
                                     WRITE_TO_INT_BUFFER!(
                                         p_dst,
diff --git a/src/macros.rs b/src/macros.rs
index 9ff1ff5..ed8c2ae 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -62,10 +62,7 @@ macro_rules! CRND_HUFF_DECODE {
 macro_rules! WRITE_TO_INT_BUFFER {
     ($buf: expr, $index: expr, $val: expr) => {
         let t_index = ($index * 4) as usize;
-        #[cfg(target_endian = "little")]
         let tiles = $val.to_le_bytes();
-        #[cfg(target_endian = "big")]
-        let tiles = $val.to_be_bytes();
         $buf[t_index] = tiles[0];
         $buf[t_index + 1] = tiles[1];
         $buf[t_index + 2] = tiles[2];
-- 
2.43.0


From 627a5f53ea5298dea1ad99b31f4bc734037bc079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:03 +0000
Subject: [PATCH 19/24] fix: the second colour of an ATC block with the mode
 bit is c0 - c1/4

---
 src/atc.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..3f3ac4f 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -2,7 +2,6 @@
 use crate::bcn::bc3::decode_bc3_alpha;
 use crate::color::color;
 use crate::macros::block_decoder;
-use core::cmp::max;
 use core::result::Result;
 
 #[inline]
@@ -58,18 +57,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = colors[8].saturating_sub(colors[12] / 4);
+        colors[5] = colors[9].saturating_sub(colors[13] / 4);
+        colors[6] = colors[10].saturating_sub(colors[14] / 4);
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From a788625f5c486f507b409348dfbbaf818d3e6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:31 +0000
Subject: [PATCH 20/24] fix: BC2 and BC3 colors have no three-color mode

---
 src/bcn/bc1.rs | 14 ++++++++++----
 src/bcn/bc2.rs |  4 ++--
 src/bcn/bc3.rs |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc1.rs b/src/bcn/bc1.rs
index 55450ec..6d61514 100644
--- a/src/bcn/bc1.rs
+++ b/src/bcn/bc1.rs
@@ -1,7 +1,7 @@
 use crate::color::{color, rgb565_le};
 
 #[inline]
-fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
+fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool, four_colors: bool) {
     let q0 = u16::from_le_bytes([data[0], data[1]]);
     let q1 = u16::from_le_bytes([data[2], data[3]]);
     let (r0, g0, b0) = rgb565_le(q0);
@@ -17,7 +17,7 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
     let g1 = g1 as u16;
     let b1 = b1 as u16;
 
-    if q0 > q1 {
+    if four_colors || q0 > q1 {
         c[2] = color(
             ((r0 * 2 + r1) / 3) as u8,
             ((g0 * 2 + g1) / 3) as u8,
@@ -48,10 +48,16 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
 
 #[inline]
 pub fn decode_bc1_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, false)
+    _decode_bc1_block(data, outbuf, false, false)
 }
 
 #[inline]
 pub fn decode_bc1a_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, true);
+    _decode_bc1_block(data, outbuf, true, false);
+}
+
+/// the colors of a BC2 or BC3 block, which has no three-color mode
+#[inline]
+pub fn decode_bc1_four_colors_block(data: &[u8], outbuf: &mut [u32]) {
+    _decode_bc1_block(data, outbuf, false, true);
 }
diff --git a/src/bcn/bc2.rs b/src/bcn/bc2.rs
index 5126cb4..931970f 100644
--- a/src/bcn/bc2.rs
+++ b/src/bcn/bc2.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_four_colors_block;
 
 #[inline]
 pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -18,6 +18,6 @@ pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc2_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_four_colors_block(&data[8..], outbuf);
     decode_bc2_alpha(data, outbuf, 3);
 }
diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 798f103..0f193f0 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_four_colors_block;
 
 #[inline]
 pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -32,6 +32,6 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc3_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_four_colors_block(&data[8..], outbuf);
     decode_bc3_alpha(data, outbuf, 3);
 }
-- 
2.43.0


From 77ff5db68f87ae65074934f10227c226051c07b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 21/24] fix: reserved BC6H modes decode to opaque black

---
 src/bcn/bc6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index b25fd6f..25b54bd 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -350,7 +350,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         mode |= (bit.read(3) << 2) as u8;
 
         if 0 == S_BC6H_MODE_INFO[mode as usize].endpoint_bits {
-            outbuf[0..16].fill(0);
+            outbuf[0..16].fill(color(0, 0, 0, 255));
             return;
         }
 
-- 
2.43.0


From 180f1a99765b620c6bddb118e11def506722fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:54 +0000
Subject: [PATCH 22/24] fix: BC6H endpoints are signed numbers, and the largest
 unsigned one is 0xffff

---
 src/bcn/bc6.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index 25b54bd..4f686cd 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -281,7 +281,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         }
 
         let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
+        let _value = if sign { _value.wrapping_neg() } else { _value };
 
         let unq: u16;
 
@@ -304,7 +304,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
+    if _value == max_value + (max_value - 1) {
         return u16::MAX;
     }
 
@@ -314,7 +314,8 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
 fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
     if _signed {
         let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        let _value = if sign != 0 { _value.wrapping_neg() } else { _value };
+        ((_value as u32 * 31) >> 5) as u16 | sign
     } else {
         ((_value as u32 * 31) >> 6) as u16
     }
@@ -723,23 +724,24 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
             let num = index_bits - anchor as usize;
             let index = bit.read(num) as usize;
 
-            let fc = factors[index] as u32;
+            let fc = factors[index] as i32;
             let fca = 64 - fc;
             let fcb = fc;
+            let value = |v: u16| if signed { v as i16 as i32 } else { v as i32 };
 
             subset_index *= 2;
             let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
+                ((value(ep_r[subset_index]) * fca + value(ep_r[subset_index + 1]) * fcb + 32) >> 6)
                     as u16,
                 signed,
             );
             let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
+                ((value(ep_g[subset_index]) * fca + value(ep_g[subset_index + 1]) * fcb + 32) >> 6)
                     as u16,
                 signed,
             );
             let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
+                ((value(ep_b[subset_index]) * fca + value(ep_b[subset_index + 1]) * fcb + 32) >> 6)
                     as u16,
                 signed,
             );
-- 
2.43.0


From 14acea60c95cc8b81c4a3efbcff7a8e8871c9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:22 +0000
Subject: [PATCH 23/24] fix: ASTC HDR deltas with a sign bit are negative

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 28841bf..5f1d469 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -856,31 +856,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 -= 0x80;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 -= 0x80;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 -= 0x40;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 -= 0x40;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 -= 0x20;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 -= 0x20;
             }
         }
     }
-- 
2.43.0


From d604920386d3b59ad2ea3d411897fdf17e258e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:14 +0000
Subject: [PATCH 24/24] fix: Crunch containers in slices of 4 GiB and more were
 cut to the slice's size modulo 4 GiB

---
 src/crunch.rs      | 4 +++-
 src/unitycrunch.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index c0cb868..b3e5bce 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -50,7 +50,9 @@ pub fn decode_crunch(
     height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
-    let handler = crunch_unpack_level(data, data.len() as u32, 0)?;
+    // offsets in a container have 32 bits
+    let data_size = u32::try_from(data.len()).unwrap_or(u32::MAX);
+    let handler = crunch_unpack_level(data, data_size, 0)?;
     match handler.format {
         CrnFormat::Dxt1 => bcn::decode_bc1(&handler.dxt_data, width, height, image),
 
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index 410f0cb..175ec13 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -41,7 +41,9 @@ pub fn decode_unity_crunch(
     height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
-    let handler = unity_crunch_unpack_level(data, data.len() as u32, 0)?;
+    // offsets in a container have 32 bits
+    let data_size = u32::try_from(data.len()).unwrap_or(u32::MAX);
+    let handler = unity_crunch_unpack_level(data, data_size, 0)?;
     match handler.format {
         CrnFormat::Dxt1 => bcn::decode_bc1(&handler.dxt_data, width, height, image),
 
-- 
2.43.0

