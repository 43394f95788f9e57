From a35368278fe716a745713fb26314f98e978e630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 01/30] fix: RGB v1 decompressor keeps stale upper bits when an
 upper byte changes

---
 src/las/rgb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..a1a0315 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
-- 
2.43.0


From 7ea691a816accd756382f4e8362d9af6f034b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 02/30] fix: RGB v1 compressor uses the green context for the
 upper blue byte

---
 src/las/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index a1a0315..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From a495f6b1f235ffe046371db850665091dcfcf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 03/30] fix: wavepacket offset difference panics on overflow

---
 src/las/wavepacket.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..cf6dadf 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,8 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 =
+                (current_item.offset as i64).wrapping_sub(self.last_wavepacket.offset as i64);
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
-- 
2.43.0


From ae600e12d083621257eadb1ea747382dd4b8e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 04/30] fix: wavepacket sizes above i32::MAX are mistaken for a
 negative offset difference

---
 src/las/wavepacket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index cf6dadf..2638e3e 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -294,7 +294,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
-- 
2.43.0


From 4284052775eeda109d38b6c2d5ca7631c448eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 05/30] fix: GPS time v1 panics when time differences overflow

---
 src/las/gps.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..341f517 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
-- 
2.43.0


From b2d173ee9a3885ffae70f6274cdae0ba46f7b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 06/30] fix: GPS time v2 panics when time differences overflow

---
 src/las/gps.rs | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index 341f517..26278ee 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -85,7 +85,7 @@ impl Add<f64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: f64) -> Self::Output {
-        Self::from(self.value + rhs.to_bits() as i64)
+        Self::from(self.value.wrapping_add(rhs.to_bits() as i64))
     }
 }
 
@@ -93,19 +93,19 @@ impl Add<i64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: i64) -> Self::Output {
-        Self::from(self.value + rhs)
+        Self::from(self.value.wrapping_add(rhs))
     }
 }
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
@@ -582,12 +582,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -648,12 +648,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -788,8 +788,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -893,10 +894,10 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -951,19 +952,18 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
+                        let gps_time_diff = self.ic_gps_time.decompress(
+                            &mut decoder,
+                            *self
+                                .common
+                                .last_gps_time_diffs
+                                .get_unchecked(self.common.last as usize),
+                            1,
+                        )?;
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
-                            self.ic_gps_time.decompress(
-                                &mut decoder,
-                                *self
-                                    .common
-                                    .last_gps_time_diffs
-                                    .get_unchecked(self.common.last as usize),
-                                1,
-                            )?,
-                        );
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                         *self
                             .common
                             .multi_extreme_counters
@@ -1093,10 +1093,10 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
-- 
2.43.0


From 1e345eff8b4153f8b600f19a614ea88e530503d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 07/30] fix: Point10 v1 panics when coordinate differences
 overflow

---
 src/las/point0.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
-- 
2.43.0


From 3714967134dda9494d595ca3d74286265a803890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 08/30] fix: Point14 GPS time panics when time differences
 overflow

---
 src/las/point6.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..13323a2 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -796,9 +796,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1443,10 +1444,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
@@ -1495,9 +1495,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
-- 
2.43.0


From 429d66b937e72d23468002d9573a211dc0ed556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 09/30] fix: a sign change of a floating point zero is lost in
 the layered codecs

---
 src/las/point6.rs     | 4 +++-
 src/las/wavepacket.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 13323a2..ce419f8 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1666,7 +1666,9 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            // compare the bits: 0.0 == -0.0 but they are not the same value to restore
+            let gps_time_changed =
+                last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 2638e3e..bf489bd 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -635,7 +635,12 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            // compare the packed bytes: 0.0 == -0.0 but they are not the same value to restore
+            let mut last_bytes = [0u8; LasWavepacket::SIZE];
+            self.last_wavepackets[last_idx].pack_into(&mut last_bytes);
+            let mut current_bytes = [0u8; LasWavepacket::SIZE];
+            current_wavepacket.pack_into(&mut current_bytes);
+            if last_bytes != current_bytes {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From a35ccfa516025585558a5831a2a0322ad48e6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 10/30] fix: chunk table counts above i32::MAX are read sign
 extended

---
 src/laszip/chunk_table.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..9b1a79e 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -159,17 +159,17 @@ impl ChunkTable {
                 byte_count: 0,
             };
             if contains_point_count {
-                current_entry.point_count = u64::from_le(decompressor.decompress(
+                current_entry.point_count = u64::from(decompressor.decompress(
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32);
             }
-            current_entry.byte_count = u64::from_le(decompressor.decompress(
+            current_entry.byte_count = u64::from(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From 38cd00cc6246c6af4366c17d960a28a48e3da1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 11/30] fix: par_decompress_buffer drops the last 8 bytes of
 the last chunk

---
 src/laszip/parallel/decompression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..c1a0fae 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -323,7 +323,8 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let compressed_points =
+        &compressed_points_data[ChunkTable::OFFSET_SIZE..ChunkTable::OFFSET_SIZE + num_point_bytes];
     par_decompress(
         compressed_points,
         decompressed_points,
-- 
2.43.0


From 53ab84bd0e417b9d49c9312a0a1ba278194e1c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 12/30] fix: par_decompress panics when the last fixed-size
 chunk is not full

---
 src/laszip/parallel/decompression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index c1a0fae..270e14a 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -348,9 +348,13 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
-    let counts = chunk_table
-        .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+    // With fixed-size chunks, the last chunk may hold fewer points than its entry says
+    let mut bytes_left = decompressed_points.len();
+    let counts = chunk_table.iter().map(move |entry| {
+        let num_bytes = ((entry.point_count * laz_vlr.items_size()) as usize).min(bytes_left);
+        bytes_left -= num_bytes;
+        num_bytes
+    });
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From 1068611cd3d347ff3eac03303b9fd29dbd097731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 13/30] fix: seek lands on the wrong point in variable-size
 chunks

---
 src/laszip/sequential/decompression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..72cd45c 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -202,7 +202,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
         if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
             self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
+            let points_before_chunk = chunk_table[..self.current_chunk]
+                .iter()
+                .map(|entry| entry.point_count)
+                .sum::<u64>();
+            let delta = point_idx - points_before_chunk;
             let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
-- 
2.43.0


From fae987c33ca70630054ded01419fab61ae4e6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 14/30] fix: reading after an out of bounds seek returns points
 of the previous chunk

---
 src/laszip/sequential/decompression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 72cd45c..2cc6b7a 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -255,6 +255,8 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             // Seek to the end so that the next call to decompress causes en error
             // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
             self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            // Points already buffered (layered chunks) must not be returned either
+            self.reset_for_new_chunk();
         }
         Ok(())
     }
-- 
2.43.0


From 5e781a41ee5240436e65c04ec2ba445737052a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 15/30] fix: layered record count is never reported

---
 src/record.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..4f8d02a 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -350,6 +350,7 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     is_first_decompression: bool,
     fields_sizes: Vec<usize>,
     record_size: usize,
+    record_count: u32,
     context: usize,
 }
 
@@ -363,6 +364,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             is_first_decompression: true,
             fields_sizes: vec![],
             record_size: 0,
+            record_count: 0,
             context: 0,
         }
     }
@@ -442,6 +444,10 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         Ok(())
     }
 
+    fn record_count(&self) -> u64 {
+        u64::from(self.record_count)
+    }
+
     fn set_selection(&mut self, selection: DecompressionSelection) {
         if self.is_first_decompression == true {
             for field_decompressor in &mut self.field_decompressors {
@@ -472,7 +478,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.record_count = self.input.read_u32::<LittleEndian>()?;
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
-- 
2.43.0


From 63f9f69064b626c5413b2b0a26fed8db06cc88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 16/30] fix: a missing chunk table makes a seekable source
 unreadable

---
 src/laszip/sequential/decompression.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 2cc6b7a..f41c7a3 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -74,6 +74,8 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
+        // Fails if the source is not actually seekable
+        let start_of_data = source.stream_position().ok();
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
@@ -90,6 +92,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         // So we _may_ still be at the start of point data,
                         // we need to skip the chunk table offset otherwise
                         // decompression won't be correct.
+                        //
+                        // If the source is seekable, looking for the chunk table moved it.
+                        if let Some(start_of_data) = start_of_data {
+                            source.seek(SeekFrom::Start(start_of_data))?;
+                        }
                         let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
                         source.read_exact(&mut tmp)?;
                         None
@@ -108,6 +115,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
                 if seek_info.is_none() {
                     // Same as in PointWiseChunked
+                    if let Some(start_of_data) = start_of_data {
+                        source.seek(SeekFrom::Start(start_of_data))?;
+                    }
                     let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
                     source.read_exact(&mut tmp)?;
                 }
-- 
2.43.0


From 2426d110c626db914a6372bf0cdd5972247abb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 17/30] fix: empty chunks are written and cannot be read back

---
 src/laszip/parallel/compression.rs   | 2 ++
 src/laszip/sequential/compression.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..9e348e7 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -331,6 +331,8 @@ where
 
     let chunks = chunks
         .into_par_iter()
+        // Decompressors cannot go through a chunk that does not have any points
+        .filter(|data| !data.as_ref().is_empty())
         .map(|data| {
             let slc = data.as_ref();
             let mut output = Cursor::new(Vec::<u8>::new());
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..649ee0d 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -225,6 +225,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.current_chunk_entry.point_count == 0 {
+            // Decompressors cannot go through a chunk that does not have any points
+            return Ok(());
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From be7ca02aadf4551de4c094082a5dcf7ba554c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 18/30] fix: parallel seek may decompress a partially read
 chunk

---
 src/laszip/parallel/decompression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 270e14a..b03f409 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -232,7 +232,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
         self.internal_buffer
             .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+        self.source.read_exact(&mut self.internal_buffer)?;
 
         // Completely decompress the chunk
         let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
-- 
2.43.0


From e6017f9d8d3f42a4362b2c4c640a86db7df95efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 19/30] fix: parallel seek lands on the wrong point in
 variable-size chunks

---
 src/laszip/parallel/decompression.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index b03f409..1dfe15a 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -246,12 +246,16 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        let points_before_chunk = self.chunk_table[..chunk_of_point]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum::<u64>();
+        let pos_in_chunk = index - points_before_chunk;
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk {
             let num_bytes_decompressed =
                 decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
             let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Make the rest appear as fully consumed to
                 // force EOF error on next decompression
@@ -263,7 +267,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
         // This effectively discard points that were
         // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
         self.rest.set_position(pos_in_chunk * self.vlr.items_size());
         self.last_chunk_read = chunk_of_point as isize;
         Ok(())
-- 
2.43.0


From e4a5cc0337a10a35b3204c064c6486df2770c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 20/30] fix: parallel seek ignores the selection

---
 src/laszip/parallel/decompression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 1dfe15a..02b2864 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -246,6 +246,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        decompressor.set_selection(self.selection);
         let points_before_chunk = self.chunk_table[..chunk_of_point]
             .iter()
             .map(|entry| entry.point_count)
-- 
2.43.0


From 6911856d3828b7cdd7a8c0097df1a9a69cff4fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 21/30] fix: parallel seek near the end of the last chunk makes
 wrong points readable

---
 src/laszip/parallel/decompression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 02b2864..611dda8 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -252,10 +252,13 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             .map(|entry| entry.point_count)
             .sum::<u64>();
         let pos_in_chunk = index - points_before_chunk;
+        self.last_chunk_read = chunk_of_point as isize;
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk {
             let num_bytes_decompressed =
                 decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
+            // What follows are not points
+            self.rest.get_mut().truncate(num_bytes_decompressed);
             let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Make the rest appear as fully consumed to
@@ -269,7 +272,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         // This effectively discard points that were
         // before the one we just seeked to
         self.rest.set_position(pos_in_chunk * self.vlr.items_size());
-        self.last_chunk_read = chunk_of_point as isize;
         Ok(())
     }
 
-- 
2.43.0


From 1637ba4525d90ee6e7eb8f18bf4d69276f7d42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 22/30] fix: appending to a file without points panics

---
 src/laszip/sequential/appender.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..ee47068 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -40,7 +40,10 @@ where
     let mut chunk_table = ChunkTable::read_from(&mut data, &vlr)?;
 
     let mut data_to_recompress = vec![];
-    if !chunk_table.is_empty() {
+    if point_count == 0 {
+        // Nothing to keep
+        chunk_table.truncate(0);
+    } else if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
             .chunk_of_point(point_count - 1)
             .unwrap_or_else(|| {
-- 
2.43.0


From 02b599b9bc2759f2a3929aeab2839e0f10b5f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 23/30] fix: appending records a wrong byte count for the first
 chunk it writes

---
 src/laszip/parallel/appender.rs      | 7 ++++++-
 src/laszip/sequential/appender.rs    | 8 ++++----
 src/laszip/sequential/compression.rs | 8 ++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 1d1fd01..d280893 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -21,7 +21,12 @@ where
             vlr,
             point_count,
             ParLasZipCompressor::new,
-            ParLasZipCompressor::get_mut,
+            |compressor, num_bytes| {
+                compressor
+                    .get_mut()
+                    .seek(SeekFrom::Current(num_bytes as i64))?;
+                Ok(())
+            },
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index ee47068..d43998b 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -20,12 +20,12 @@ pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
-    get_mut_dest_of_compressor: F2,
+    skip_existing_chunks: F2,
 ) -> crate::Result<(Compressor, ChunkTable)>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor) -> &mut W,
+    F2: FnOnce(&mut Compressor, u64) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -102,7 +102,7 @@ where
     // offset is.
     compressor.reserve_offset_to_chunk_table()?;
     let last_chunk_pos = chunk_table.chunk_position(chunk_table.len()).unwrap();
-    get_mut_dest_of_compressor(&mut compressor).seek(SeekFrom::Current(last_chunk_pos as i64))?;
+    skip_existing_chunks(&mut compressor, last_chunk_pos)?;
     // Rewrite the last chunk we read
     if !data_to_recompress.is_empty() {
         compressor.compress_many(&data_to_recompress)?;
@@ -128,7 +128,7 @@ where
             vlr,
             point_count,
             LasZipCompressor::new,
-            LasZipCompressor::get_mut,
+            LasZipCompressor::skip_existing_chunks,
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 649ee0d..e83cac8 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -206,6 +206,14 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.start_pos as i64
     }
 
+    /// Skips the bytes of chunks that are already written in the destination,
+    /// so that the next chunk starts after them.
+    pub(crate) fn skip_existing_chunks(&mut self, num_bytes: u64) -> std::io::Result<()> {
+        let stream = self.record_compressor.get_mut();
+        self.chunk_start_pos = stream.seek(SeekFrom::Current(num_bytes as i64))?;
+        Ok(())
+    }
+
     /// Returns the current chunk table
     pub(crate) fn chunk_table(&self) -> &ChunkTable {
         &self.chunk_table
-- 
2.43.0


From 01162184238ca1c6b22017f7f5e0d9dcfeb8052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 24/30] fix: appending in parallel to a file with variable-size
 chunks panics

---
 src/laszip/parallel/appender.rs   | 7 +++++++
 src/laszip/sequential/appender.rs | 7 +++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index d280893..1b1244e 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -27,6 +27,13 @@ where
                     .seek(SeekFrom::Current(num_bytes as i64))?;
                 Ok(())
             },
+            |compressor, points| {
+                if compressor.vlr().uses_variable_size_chunks() {
+                    compressor.compress_chunks(vec![points])
+                } else {
+                    compressor.compress_many(points)
+                }
+            },
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d43998b..abd6469 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -15,17 +15,19 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 /// * If `point_count` is greater than the actual number of points,
 ///   the function will stop at when we know for sure no other points
 ///   could be present
-pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
+pub(crate) fn prepare_compressor_for_appending<W, F, F2, F3, Compressor>(
     mut data: W,
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
     skip_existing_chunks: F2,
+    compress_last_chunk: F3,
 ) -> crate::Result<(Compressor, ChunkTable)>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
     F2: FnOnce(&mut Compressor, u64) -> std::io::Result<()>,
+    F3: FnOnce(&mut Compressor, &[u8]) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -105,7 +107,7 @@ where
     skip_existing_chunks(&mut compressor, last_chunk_pos)?;
     // Rewrite the last chunk we read
     if !data_to_recompress.is_empty() {
-        compressor.compress_many(&data_to_recompress)?;
+        compress_last_chunk(&mut compressor, &data_to_recompress)?;
     }
 
     Ok((compressor, chunk_table))
@@ -129,6 +131,7 @@ where
             point_count,
             LasZipCompressor::new,
             LasZipCompressor::skip_existing_chunks,
+            LasZipCompressor::compress_many,
         )?;
 
         Ok(Self {
-- 
2.43.0


From 5666b8fed92a6194fcbfb294b862464bfdf36ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 25/30] fix: reading after an out of bounds parallel seek
 panics or returns other points

---
 src/laszip/parallel/decompression.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 611dda8..cf4e43b 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -224,6 +224,9 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             Some(v) => v,
             None => {
                 let _ = self.source.seek(SeekFrom::End(0))?;
+                // No chunk is left to read,
+                // so that the next call to decompress causes an error
+                self.last_chunk_read = self.chunk_table.len() as isize - 1;
                 return Ok(());
             }
         };
-- 
2.43.0


From 386fa866ecbab4cfae21655683c3f708a5c7be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 26/30] fix: requesting more points than there are panics in
 parallel

---
 src/laszip/parallel/decompression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index cf4e43b..42db030 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -140,10 +140,13 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             )));
         }
 
+        if num_points < num_requested_points_left {
+            return Err(LasZipError::IoError(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "more points requested than there are in the chunk table",
+            )));
+        }
         debug_assert!(num_chunks_to_decompress >= 1);
-        debug_assert!(num_points >= num_requested_points_left);
-        // TODO if num_points >= num_requested_points_left then the user ask to decompress more points
-        //      than there are
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
-- 
2.43.0


From 483d1d541c83848a122e2fc3313f7359d54f5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 27/30] fix: seek in the last chunk may stop before the
 requested point

---
 src/laszip/sequential/decompression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index f41c7a3..4902693 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -244,8 +244,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     self.decompress_one(&mut tmp_out)?;
                     let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
 
-                    if current_pos >= offset_to_chunk_table {
+                    // Being right at the chunk table is fine: once all the bytes are read,
+                    // there may still be points which do not need more of them.
+                    if current_pos > offset_to_chunk_table {
                         self.get_mut().seek(SeekFrom::End(0))?;
+                        self.reset_for_new_chunk();
                         return Ok(());
                     }
                 }
-- 
2.43.0


From 7ebca9e5b4d77fa71f3b60861223abbc96b08d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 28/30] fix: reading past the last variable-size chunk panics

---
 src/laszip/sequential/decompression.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 4902693..3e2d11b 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -154,6 +154,18 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
+        if self.chunk_points_read == 0 && self.vlr.uses_variable_size_chunks() {
+            if let Some(seek_info) = &self.seek_info {
+                if self.current_chunk >= seek_info.chunk_table.len() {
+                    // What follows the last chunk are not points
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::UnexpectedEof,
+                        "no chunks available in chunk table",
+                    ));
+                }
+            }
+        }
+
         self.record_decompressor.decompress_next(&mut out)?;
         self.chunk_points_read += 1;
 
-- 
2.43.0


From 742e592feced25218019adae0bcc56c5a77af82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 29/30] fix: damaged gps times overflow the stack

---
 src/las/gps.rs    | 77 +++++++++++++++++++++++++++++------------------
 src/las/point6.rs | 14 +++++++--
 2 files changed, 58 insertions(+), 33 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index 26278ee..59b29e4 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -857,24 +857,15 @@ pub mod v2 {
         }
     }
 
-    impl<R: Read> FieldDecompressor<R> for GpsTimeDecompressor {
-        fn size_of_field(&self) -> usize {
-            std::mem::size_of::<i64>()
-        }
-
-        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
-            unsafe {
-                *self.common.last_gps_times.get_unchecked_mut(0) =
-                    read_and_unpack::<_, GpsTime>(src, first_point)?;
-            }
-            Ok(())
-        }
-
-        fn decompress_with(
+    impl GpsTimeDecompressor {
+        /// Decodes one step of the gps time.
+        ///
+        /// Returns true if it only switched to another sequence
+        /// and the time is still to be decoded.
+        fn decompress_step<R: Read>(
             &mut self,
-            mut decoder: &mut ArithmeticDecoder<R>,
-            buf: &mut [u8],
-        ) -> std::io::Result<()> {
+            decoder: &mut ArithmeticDecoder<R>,
+        ) -> std::io::Result<bool> {
             let mut multi: i32;
             debug_assert!(self.common.last < 4);
             unsafe {
@@ -893,7 +884,7 @@ pub mod v2 {
                             .common
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
-                            self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
+                            self.ic_gps_time.decompress(decoder, 0, 0)?;
                         *self
                             .common
                             .last_gps_times
@@ -915,7 +906,7 @@ pub mod v2 {
                             .get_unchecked_mut(self.common.next)
                             .value = i64::from(
                             self.ic_gps_time.decompress(
-                                &mut decoder,
+                                decoder,
                                 (self
                                     .common
                                     .last_gps_times
@@ -946,14 +937,14 @@ pub mod v2 {
                     } else if multi > 2 {
                         // we switch to another sequence
                         self.common.last = (self.common.last + multi as usize - 2) & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 } else {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
                         let gps_time_diff = self.ic_gps_time.decompress(
-                            &mut decoder,
+                            decoder,
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -971,7 +962,7 @@ pub mod v2 {
                     } else if multi < LASZIP_GPS_TIME_MULTI_UNCHANGED {
                         let gps_time_diff: i32;
                         if multi == 0 {
-                            gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 7)?;
+                            gps_time_diff = self.ic_gps_time.decompress(decoder, 0, 7)?;
                             *self
                                 .common
                                 .multi_extreme_counters
@@ -995,7 +986,7 @@ pub mod v2 {
                             // TODO this can be made shorter, the if only changes the context param
                             if multi < 10 {
                                 gps_time_diff = self.ic_gps_time.decompress(
-                                    &mut decoder,
+                                    decoder,
                                     multi.wrapping_mul(
                                         *self
                                             .common
@@ -1006,7 +997,7 @@ pub mod v2 {
                                 )?;
                             } else {
                                 gps_time_diff = self.ic_gps_time.decompress(
-                                    &mut decoder,
+                                    decoder,
                                     multi.wrapping_mul(
                                         *self
                                             .common
@@ -1020,7 +1011,7 @@ pub mod v2 {
                         // < LASZIP_GPS_TIME_MULTI
                         else if multi == LASZIP_GPS_TIME_MULTI {
                             gps_time_diff = self.ic_gps_time.decompress(
-                                &mut decoder,
+                                decoder,
                                 multi.wrapping_mul(
                                     *self
                                         .common
@@ -1052,7 +1043,7 @@ pub mod v2 {
                             multi = LASZIP_GPS_TIME_MULTI - multi;
                             if multi > LASZIP_GPS_TIME_MULTI_MINUS {
                                 gps_time_diff = self.ic_gps_time.decompress(
-                                    &mut decoder,
+                                    decoder,
                                     multi.wrapping_mul(
                                         *self
                                             .common
@@ -1063,7 +1054,7 @@ pub mod v2 {
                                 )?;
                             } else {
                                 gps_time_diff = self.ic_gps_time.decompress(
-                                    &mut decoder,
+                                    decoder,
                                     LASZIP_GPS_TIME_MULTI_MINUS.wrapping_mul(
                                         *self
                                             .common
@@ -1104,7 +1095,7 @@ pub mod v2 {
                             .get_unchecked_mut(self.common.next)
                             .value = i64::from(
                             self.ic_gps_time.decompress(
-                                &mut decoder,
+                                decoder,
                                 (self
                                     .common
                                     .last_gps_times
@@ -1135,15 +1126,41 @@ pub mod v2 {
                         self.common.last = (self.common.last + multi as usize
                             - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                             & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 }
+                Ok(false)
+            }
+        }
+    }
+
+    impl<R: Read> FieldDecompressor<R> for GpsTimeDecompressor {
+        fn size_of_field(&self) -> usize {
+            std::mem::size_of::<i64>()
+        }
+
+        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
+            unsafe {
+                *self.common.last_gps_times.get_unchecked_mut(0) =
+                    read_and_unpack::<_, GpsTime>(src, first_point)?;
+            }
+            Ok(())
+        }
+
+        fn decompress_with(
+            &mut self,
+            decoder: &mut ArithmeticDecoder<R>,
+            buf: &mut [u8],
+        ) -> std::io::Result<()> {
+            // damaged data may switch any number of times
+            while self.decompress_step(decoder)? {}
+            unsafe {
                 self.common
                     .last_gps_times
                     .get_unchecked(self.common.last)
                     .pack_into_unchecked(buf);
-                Ok(())
             }
+            Ok(())
         }
     }
 }
diff --git a/src/las/point6.rs b/src/las/point6.rs
index ce419f8..706ba6b 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -687,6 +687,14 @@ mod v3_v4 {
 
     impl<const VERSION: usize> LasPoint6DecompressorImpl<VERSION> {
         fn read_gps_time(&mut self) -> std::io::Result<()> {
+            // damaged data may switch between sequences any number of times
+            while self.read_gps_time_step()? {}
+            Ok(())
+        }
+
+        /// Returns true if it only switched to another sequence
+        /// and the time is still to be decoded.
+        fn read_gps_time_step(&mut self) -> std::io::Result<bool> {
             let the_context = &mut self.contexts[self.current_context];
 
             let mut multi: i32;
@@ -736,7 +744,7 @@ mod v3_v4 {
                     // We switch to another sequence
                     the_context.gps_sequences.last =
                         (the_context.gps_sequences.last + multi as usize - 1) & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             } else {
                 multi = self
@@ -874,10 +882,10 @@ mod v3_v4 {
                         + multi as usize
                         - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                         & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             }
-            Ok(())
+            Ok(false)
         }
     }
 
-- 
2.43.0


From 659fc6d093225e81f78c0ddb959ec3e86eb6eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:45 +0000
Subject: [PATCH 30/30] fix: encoding on after a failed write runs past the
 output buffer

---
 src/encoders.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index c127adc..ce55032 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -416,9 +416,11 @@ impl<T: Write> ArithmeticEncoder<T> {
             self.out_byte = self.out_buffer.as_mut_ptr();
         }
 
+        // The end has to move even if writing fails, otherwise encoding further
+        // would run past the end of the buffer
+        self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
         let slc = unsafe { std::slice::from_raw_parts(self.out_byte, AC_BUFFER_SIZE) };
         self.out_stream.write_all(slc)?;
-        self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
 
         debug_assert!(self.end_byte > self.out_byte);
         debug_assert!(self.out_byte.cast_const() < self.end_of_buffer());
-- 
2.43.0

