From f08906b245ac32a1e96b2f1bad0be850f251ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:23 +0000
Subject: [PATCH 01/19] fix: encode image data containing color index 255

The number of entries was computed as a u8, so adding one to 255 overflowed:
debug builds panicked, and release builds used a code size of 2.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..2d28928 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,8 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let max_value = self.data().iter().copied().max().unwrap_or(0);
+        let min_code_bits = next_high_bit(u16::from(max_value) + 1);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +229,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From 0ce08b5b492c11f5fc864be9b79ca1c517d8864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:23 +0000
Subject: [PATCH 02/19] fix: keep all bits of the final LZW data code

When the bits left over after the end code included part of the last data
code, that code was lost and the encoded image could not be decoded again
(IncompleteImageData).
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..ea934e8 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -223,6 +223,10 @@ impl Compressor {
             self.pack(code, buffer);
         }
         self.pack(self.end_code(), buffer);
+        // flush the last byte if it contains bits of a code before the end code
+        if self.n_bits > u8::from(self.code_bits) {
+            buffer.push(self.code as u8);
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From b4da820671c60c5a1cdb070d24ea661d1b3a8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:23 +0000
Subject: [PATCH 03/19] fix: reject LZW data starting with an undefined code

The first code after a clear code must be a literal.  Accepting another code
put a dangling prefix in the table, causing a panic or an endless loop.
---
 gift/src/lzw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index ea934e8..657603a 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -390,7 +390,9 @@ impl Decompressor {
                 self.push_node(Some(prefix), data);
                 self.decompress_buffer(code, buffer);
             }
-            None => buffer.push(code as u8),
+            // First code must be a literal value
+            None if code < self.clear_code() => buffer.push(code as u8),
+            None => return Err(Error::InvalidLzwData),
         }
         if next_code + 1 == self.code_bits.entries() {
             self.code_bits += 1;
-- 
2.43.0


From 386e9506a19ae98da03f7234255cceaa04d7ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:23 +0000
Subject: [PATCH 04/19] fix: stop adding LZW table entries once the table is
 full

With a deferred clear code, the table grew by one entry for every code.
After 65,535 entries, the u16 code counter overflowed.
---
 gift/src/lzw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 657603a..4c7218d 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -387,7 +387,10 @@ impl Decompressor {
                 } else {
                     self.lookup(prefix)
                 };
-                self.push_node(Some(prefix), data);
+                // Once full, the table is used as is until the next clear code
+                if next_code < Bits::MAX.entries() {
+                    self.push_node(Some(prefix), data);
+                }
                 self.decompress_buffer(code, buffer);
             }
             // First code must be a literal value
-- 
2.43.0


From 09ace82dba5da10b6f87dcf92e90392ca1d2f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:23 +0000
Subject: [PATCH 05/19] fix: ignore LZW data after the end code

Padding bits following the end code were decoded as pixels, which could
fill in an incomplete image, and junk could make a complete image invalid.
---
 gift/src/lzw.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 4c7218d..2e98ba8 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// Has the end code been reached?
+    ended: bool,
 }
 
 impl CNode {
@@ -268,6 +270,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            ended: false,
         };
         dec.reset_table();
         dec
@@ -341,7 +344,9 @@ impl Decompressor {
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
-        while let (Some(code), n_consumed) = self.unpack(bytes) {
+        while !self.ended
+            && let (Some(code), n_consumed) = self.unpack(bytes)
+        {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
         }
@@ -360,7 +365,7 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
+            self.ended = true;
             self.prefix = None;
         } else {
             self.decompress_data(code, buffer)?;
-- 
2.43.0


From 3c5fd83595b83d88de42e558ea87470827639a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:45 +0000
Subject: [PATCH 06/19] fix: end frame iterator after an invalid block sequence

Iterators return None after the first error, but Frames carried on decoding
when the error was InvalidBlockSequence.
---
 gift/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..3c01af1 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -447,7 +447,10 @@ impl<R: Read> Iterator for Frames<R> {
                     match self.handle_block(b) {
                         Ok(Some(f)) => return Some(Ok(f)), // transpose
                         Ok(None) => {}                     // need more blocks
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            self.blocks.done = true;
+                            return Some(Err(e));
+                        }
                     }
                 }
                 Err(e) => return Some(Err(e)),
-- 
2.43.0


From a042424670e74a0c0bde4d734ead3f785819c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:45 +0000
Subject: [PATCH 07/19] fix: end step iterator after the first error

An error before the first frame (such as an empty file) was repeated forever,
so converting the Decoder into a looping iterator never returned.
---
 gift/src/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 3c01af1..3ac1dfc 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -571,6 +571,8 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
+    /// Flag when done (after an error)
+    done: bool,
 }
 
 /// A step iterator which repeats the animation.
@@ -633,15 +635,21 @@ impl<R: Read> Iterator for StepsOnce<R> {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
         if self.raster.is_none()
             && let Err(e) = self.make_raster()
         {
+            self.done = true;
             return Some(Err(e));
         }
-        match self.raster {
+        let step = match self.raster {
             Some(_) => self.next_step(),
             None => None,
-        }
+        };
+        self.done = matches!(step, Some(Err(_)));
+        step
     }
 }
 
@@ -653,6 +661,7 @@ impl<R: Read> StepsOnce<R> {
             global_color_table: None,
             loop_count_ext: None,
             raster: None,
+            done: false,
         }
     }
 
-- 
2.43.0


From ae85db782a3c87e18843cdccb710214b5b814d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:45 +0000
Subject: [PATCH 08/19] fix: report a decoding error after the steps which
 precede it

The looping iterator returned the error first, followed by the decoded steps
(repeated if looping), instead of ending after the error.
---
 gift/src/decode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 3ac1dfc..9b74c8e 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -770,12 +770,13 @@ impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(err) = self.err.take() {
-            return Some(Err(err));
-        }
         if let Some(step) = self.steps.get(self.step_n) {
             self.step_n += 1;
             Some(Ok(step.clone()))
+        } else if let Some(err) = self.err.take() {
+            // Do not repeat an animation with an error
+            self.loop_count = None;
+            Some(Err(err))
         } else if let Some(loop_count) = self.loop_count {
             match loop_count.cmp(&1) {
                 Ordering::Greater => self.loop_count = Some(loop_count - 1),
-- 
2.43.0


From f0137c89946d97fda923bf7f3f7c8981e940c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:15 +0000
Subject: [PATCH 09/19] fix: do not decode past the trailer when there are no
 steps

If the first step was None, the looping iterator asked for another, which
read data after the trailer and reported an error for it.
---
 gift/src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 9b74c8e..5e0bafb 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -571,7 +571,7 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
-    /// Flag when done (after an error)
+    /// Flag when done (after the last step or an error)
     done: bool,
 }
 
@@ -648,7 +648,7 @@ impl<R: Read> Iterator for StepsOnce<R> {
             Some(_) => self.next_step(),
             None => None,
         };
-        self.done = matches!(step, Some(Err(_)));
+        self.done = !matches!(step, Some(Ok(_)));
         step
     }
 }
-- 
2.43.0


From d988f3d293b1d0ba27f14b083d4a90e9d4b0b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:15 +0000
Subject: [PATCH 10/19] fix: limit encoded color tables to 256 entries

All colors of a larger palette were written, but the color table size in the
descriptor is at most 256, so the extra colors were decoded as other blocks.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 2d28928..02a4b1b 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -441,10 +441,10 @@ fn make_color_table(palette: &Palette) -> (ColorTableConfig, Vec<u8>) {
     let tbl_cfg = ColorTableConfig::new(
         ColorTableExistence::Present,
         ColorTableOrdering::NotSorted,
-        palette.len() as u16,
+        palette.len().min(256) as u16,
     );
-    let mut pal = Vec::with_capacity(palette.len() * 3);
-    for clr in palette.colors() {
+    let mut pal = Vec::with_capacity(tbl_cfg.size_bytes());
+    for clr in palette.colors().iter().take(tbl_cfg.len()) {
         pal.push(u8::from(Rgb::red(*clr)));
         pal.push(u8::from(Rgb::green(*clr)));
         pal.push(u8::from(Rgb::blue(*clr)));
-- 
2.43.0


From abf45a293d24616d93efdbf7da917c7b2aea7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:15 +0000
Subject: [PATCH 11/19] fix: use little-endian byte order for animation loop
 count

As with all other 16-bit values in a GIF file, the low byte of the loop count
comes first in the NETSCAPE2.0 extension.
---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From ba336327d5672c48f66006ace43ffb204e520a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:15 +0000
Subject: [PATCH 12/19] fix: show previous frames through transparent pixels

Transparent pixels of a frame erased the pixels of previous frames instead of
leaving them unmodified.
---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 5e0bafb..8612983 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -756,11 +756,10 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            // Transparent pixels leave the raster unchanged
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 880a2d98374b96af255f1725cee89b67f23f3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:15 +0000
Subject: [PATCH 13/19] fix: keep frame delay time in decoded steps

Step::delay_time_cs never returned the delay of a decoded frame.
---
 gift/src/decode.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 8612983..f11319b 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -695,10 +695,7 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
-        let transparent_color = frame
-            .graphic_control_ext
-            .unwrap_or_default()
-            .transparent_color();
+        let control = frame.graphic_control_ext.unwrap_or_default();
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
             let mut raster = Raster::with_raster(raster);
@@ -714,7 +711,8 @@ impl<R: Read> StepsOnce<R> {
             rs.copy_color(frame.region(), SRgba8::default());
         }
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(control.transparent_color())
+            .with_delay_time_cs(Some(control.delay_time_cs())))
     }
 }
 
-- 
2.43.0


From 285021afd1fd4871e2c04599b87c0da34b726560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:15 +0000
Subject: [PATCH 14/19] fix: put rows of interlaced frames in order

Rows of an interlaced frame are stored in four passes, but steps contained
them in the order they are stored.
---
 gift/src/decode.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index f11319b..574a241 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -745,9 +745,7 @@ fn update_frame(
     clrs: &[u8],
 ) -> Result<()> {
     let trans_clr = frame.transparent_color();
-    let width = usize::from(frame.width());
-    let data = frame.image_data.data();
-    for (row, frow) in raster.rows_mut(reg).zip(data.chunks_exact(width)) {
+    for (row, frow) in raster.rows_mut(reg).zip(frame_rows(frame)) {
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
@@ -763,6 +761,23 @@ fn update_frame(
     Ok(())
 }
 
+/// Get rows of image data, ordered from top to bottom
+fn frame_rows(frame: &Frame) -> Vec<&[u8]> {
+    let width = usize::from(frame.width());
+    let mut rows: Vec<_> =
+        frame.image_data.data().chunks_exact(width).collect();
+    if frame.image_desc.interlaced() {
+        let passes = [(0, 8), (4, 8), (2, 4), (1, 2)];
+        let n_rows = rows.len();
+        let order = passes.iter().flat_map(|&(y, n)| (y..n_rows).step_by(n));
+        let interlaced = rows.clone();
+        for (y, row) in order.zip(interlaced) {
+            rows[y] = row;
+        }
+    }
+    rows
+}
+
 impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
-- 
2.43.0


From 84469e653d1fc8da234fb1b420750bbaa0227cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:40 +0000
Subject: [PATCH 15/19] fix: return an error for an empty frame or logical
 screen

Decoding steps panicked for a 0x0 frame, or when the logical screen width was
zero.  Like other empty frames, return InvalidFrameDimensions for these.
---
 gift/src/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 574a241..4fe5b23 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -673,6 +673,9 @@ impl<R: Read> StepsOnce<R> {
                 self.loop_count_ext = p.loop_count_ext.take();
                 let w = p.screen_width().into();
                 let h = p.screen_height().into();
+                if w == 0 || h == 0 {
+                    return Err(Error::InvalidFrameDimensions);
+                }
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
@@ -723,7 +726,8 @@ fn update_raster(
     global_tbl: &Option<GlobalColorTable>,
 ) -> Result<()> {
     let reg = frame.region();
-    if raster.intersection(reg) == reg {
+    let is_empty = reg.width() == 0 || reg.height() == 0;
+    if !is_empty && raster.intersection(reg) == reg {
         let clrs = if let Some(tbl) = &frame.local_color_table {
             tbl.colors()
         } else if let Some(tbl) = global_tbl {
-- 
2.43.0


From 006f2f460d95c0dc25c8302e9512253ffa7f10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:40 +0000
Subject: [PATCH 16/19] fix: apply maximum image size to the logical screen

A file of a few bytes with a large logical screen could allocate gigabytes
for the raster, or panic if it had more than i32::MAX pixels.
---
 gift/src/decode.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 4fe5b23..fc1d56e 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -676,6 +676,7 @@ impl<R: Read> StepsOnce<R> {
                 if w == 0 || h == 0 {
                     return Err(Error::InvalidFrameDimensions);
                 }
+                self.check_screen_sz(w, h)?;
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
@@ -686,6 +687,18 @@ impl<R: Read> StepsOnce<R> {
         }
     }
 
+    /// Check logical screen size
+    fn check_screen_sz(&self, w: u32, h: u32) -> Result<()> {
+        // a raster is limited to i32::MAX pixels
+        let raster_sz = i32::MAX as usize;
+        let max_sz = self.frames.blocks.max_image_sz.unwrap_or(raster_sz);
+        if w as usize * h as usize > max_sz.min(raster_sz) {
+            Err(Error::TooLargeImage)
+        } else {
+            Ok(())
+        }
+    }
+
     /// Get the next step
     fn next_step(&mut self) -> Option<Result<Step>> {
         debug_assert!(self.raster.is_some());
-- 
2.43.0


From 2dbca4262ebb99b8e3df475b82944b288084ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:40 +0000
Subject: [PATCH 17/19] fix: limit memory used for extra image data

Extra data was truncated only after all of it was decompressed, so a small
image could use thousands of times more memory than its compressed size.
---
 gift/src/decode.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index fc1d56e..7eb08a8 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -314,7 +314,10 @@ impl<R: Read> Blocks<R> {
             Comment(b) => b.parse_sub_block(bytes),
             Application(b) => b.parse_sub_block(bytes),
             Unknown(b) => b.parse_sub_block(bytes),
-            ImageData(b) => b.parse_sub_block(bytes, &mut self.decompressor)?,
+            ImageData(b) => {
+                b.parse_sub_block(bytes, &mut self.decompressor)?;
+                b.truncate(self.image_sz);
+            }
             _ => panic!("Invalid state in parse_sub_block!"),
         }
         Ok(())
@@ -335,13 +338,17 @@ impl ImageData {
         panic!("Invalid state in decode_image_data!");
     }
 
-    /// Finish LZW decompression
-    fn finish(&mut self, image_sz: usize) -> Result<()> {
+    /// Truncate extra image data
+    fn truncate(&mut self, image_sz: usize) {
         if self.data().len() > image_sz {
             warn!("Extra image data: {:?}", &self.data()[image_sz..]);
             self.data_mut().truncate(image_sz);
             self.data_mut().shrink_to_fit();
         }
+    }
+
+    /// Finish LZW decompression
+    fn finish(&mut self, image_sz: usize) -> Result<()> {
         if self.data().len() == image_sz {
             Ok(())
         } else {
-- 
2.43.0


From 6a83429c3b609a06730665a1603968b20118773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:40 +0000
Subject: [PATCH 18/19] fix: do not apply graphic control of plain text to a
 frame

A graphic control extension before a plain text extension was applied to the
next frame, or caused InvalidBlockSequence if the frame had its own.
---
 gift/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 7eb08a8..524ca71 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -531,6 +531,10 @@ impl<R: Read> Frames<R> {
                     f.comments.push(b);
                 }
             }
+            Block::PlainText(_) => {
+                // graphic control applies to plain text instead of a frame
+                self.graphic_control_ext = None;
+            }
             Block::GraphicControl(b) => {
                 if self.has_frame() {
                     return Err(Error::InvalidBlockSequence);
-- 
2.43.0


From d60db6d073e7c2e01a9ce7b81bc899b47dbf84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:15 +0000
Subject: [PATCH 19/19] fix: encode the global color table set on a step
 encoder

StepEnc::with_global_color_table had no effect: the palette of the first step
was always used as the global color table.
---
 gift/src/encode.rs | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 02a4b1b..919e438 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -382,27 +382,31 @@ impl<W: Write> StepEnc<W> {
             loop_count_ext,
             ..Preamble::default()
         };
-        match &self.preamble {
-            Some(pre) => {
-                if !pre
-                    .logical_screen_desc
-                    .equal_size(preamble.logical_screen_desc)
-                {
-                    return Err(Error::InvalidRasterDimensions);
-                }
-                if pre.global_color_table != preamble.global_color_table {
-                    let frame = Frame::new(
-                        control,
-                        image_desc.with_color_table_config(tbl_cfg),
-                        Some(LocalColorTable::with_colors(&pal[..])),
-                        image_data,
-                    );
-                    return self.frame_enc.encode_frame(&frame);
-                }
+        if self.preamble.is_none() {
+            let mut preamble = preamble.clone();
+            if let (cfg, Some(tbl)) = &self.global_color_table {
+                preamble.logical_screen_desc =
+                    logical_screen_desc.with_color_table_config(*cfg);
+                preamble.global_color_table = Some(tbl.clone());
             }
-            None => {
-                self.frame_enc.encode_preamble(&preamble)?;
-                self.preamble = Some(preamble);
+            self.frame_enc.encode_preamble(&preamble)?;
+            self.preamble = Some(preamble);
+        }
+        if let Some(pre) = &self.preamble {
+            if !pre
+                .logical_screen_desc
+                .equal_size(preamble.logical_screen_desc)
+            {
+                return Err(Error::InvalidRasterDimensions);
+            }
+            if pre.global_color_table != preamble.global_color_table {
+                let frame = Frame::new(
+                    control,
+                    image_desc.with_color_table_config(tbl_cfg),
+                    Some(LocalColorTable::with_colors(&pal[..])),
+                    image_data,
+                );
+                return self.frame_enc.encode_frame(&frame);
             }
         }
         let frame = Frame::new(control, image_desc, None, image_data);
-- 
2.43.0

