From 7df9c9789fee6c56489ee0fb8edfd286bda20a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 01/32] Add guarded re-export of private modules for the
 verification harness

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9625ce4..60363b5 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,3 +90,12 @@ mod math;
 
 pub use codec::{adhoc::AdhocCodec, wav::WavCodec, StreamInfo, Streamable};
 pub use std::io::SeekFrom;
+
+/// Re-exports of private modules for the external verification harness.
+/// Only compiled with `--cfg adhoc_verif`, never in normal builds.
+#[cfg(adhoc_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::collections::*;
+    pub use crate::math::*;
+}
-- 
2.43.0


From 063df623794562956e6aa1df9ea4d84f97622b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 02/32] fix: encode and decode first frames shorter than three
 samples

---
 src/codec/adhoc.rs       |  9 ++++++---
 src/codec/adhoc/frame.rs | 11 +++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..82473fd 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -396,10 +396,13 @@ impl Streamable for AdhocCodec {
 
                     //make sure stack history from the header is transferred to state
                     // 0..3 because sample history is supposed to have 3 samples
+                    // (an init frame starts with an empty history)
                     for k in 0..3 {
-                        channel_state_list[offset]
-                            .sample_history_mut()
-                            .push(header.stack_history[k]);
+                        if header.is_init == false {
+                            channel_state_list[offset]
+                                .sample_history_mut()
+                                .push(header.stack_history[k]);
+                        }
                     }
 
                     //make sure buffers are clear
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..161b657 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -186,6 +186,7 @@ impl FrameCodec {
 
     pub fn init(&mut self) {
         self.state = CodecState::Init;
+        self.sample_history = CircularStack::new();
         self.buffered_channel.clear();
     }
 
@@ -206,15 +207,17 @@ impl FrameCodec {
                 let bit_cursor = stream.bit_cursor();
 
                 // write first three samples into the stream
+                // (or all of them if there are less than three)
                 // and also record then in the history queue
-                for k in 0..3 {
+                let num_raw_samples = pcm.len().min(3);
+                for k in 0..num_raw_samples {
                     let samp = pcm[k];
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[num_raw_samples..]);
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -229,7 +232,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in pcm[num_raw_samples..].iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -303,7 +306,7 @@ impl FrameCodec {
         frame_info.next().map(|FrameHeader { exponent, size, .. }| {
             match self.state {
                 CodecState::Init => {
-                    let num_samples_pre_read = 3;
+                    let num_samples_pre_read = size.min(3);
                     //write starting samples into the stream
                     for _ in 0..num_samples_pre_read {
                         let samp = stream.read::<u16>() as i16;
-- 
2.43.0


From 109b9b4e8ddc838d32512c53b8b358ab17c6211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 03/32] fix: split encode calls of more than 65535 samples per
 channel, skip empty ones

---
 src/codec/adhoc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 82473fd..fae3aeb 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -319,7 +319,12 @@ impl Streamable for AdhocCodec {
     }
 
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
-        self.encode(samples);
+        // a frame header stores the number of samples in 16 bits, so longer
+        // input takes several frames (and empty input takes none)
+        let max_block_len = self.info().channels() * u16::MAX as usize;
+        for block in samples.chunks(max_block_len) {
+            self.encode(block);
+        }
 
         Some(samples.len())
     }
-- 
2.43.0


From b4dd6377ee4be52a886f68ed55a2b6f2e48c9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 04/32] fix: encode reports only the samples it took, not a
 trailing partial sample frame

---
 src/codec/adhoc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index fae3aeb..0f9b564 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -319,14 +319,17 @@ impl Streamable for AdhocCodec {
     }
 
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
+        let num_channels = self.info().channels();
+        let valid_len = (samples.len() / num_channels) * num_channels;
+
         // a frame header stores the number of samples in 16 bits, so longer
         // input takes several frames (and empty input takes none)
-        let max_block_len = self.info().channels() * u16::MAX as usize;
-        for block in samples.chunks(max_block_len) {
+        let max_block_len = num_channels * u16::MAX as usize;
+        for block in samples[0..valid_len].chunks(max_block_len) {
             self.encode(block);
         }
 
-        Some(samples.len())
+        Some(valid_len)
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From 226b1b0e8b8458a14b955bf2d7db37101fd78dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 05/32] fix: Rice coding overflows for parameter 15, for -32768
 and for long unary runs

---
 src/collections/bitstream.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..075d129 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -282,8 +282,9 @@ impl BitStream {
 
     pub fn write_compressed(&mut self, exponent: i16, entropy: i16) {
         let sign_bit = (entropy >> 15) & 1;
-        let mut quotient = entropy.abs() >> exponent;
-        let remainder = entropy.abs() & ((1 << exponent) - 1);
+        let magnitude = entropy.unsigned_abs();
+        let mut quotient = magnitude >> exponent;
+        let remainder = magnitude & ((1u16 << exponent) - 1);
         let remainder_size_in_bits = exponent as usize;
 
         //write sign bit
@@ -321,10 +322,10 @@ impl BitStream {
         //write sign bit
         let sign_bit = self.read_bit() as i16;
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
+        let divisor = 1u16 << exponent;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0u16;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -334,7 +335,7 @@ impl BitStream {
             bit_chunk.count_zeros() == 0
         } {
             self.offset_bit_cursor(128);
-            quotient += 128;
+            quotient = quotient.wrapping_add(128);
         }
 
         // 128-bit chunk that was peeked cointains zero so count
@@ -345,12 +346,16 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient = quotient.wrapping_add(zero_bit_pos.max(0) as u16);
 
         // read
-        let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let remainder = self.read_bits(remainder_size_in_bits as usize) as u16;
+        let unsigned_val = divisor.wrapping_mul(quotient).wrapping_add(remainder) as i16;
+        if sign_bit == 1 {
+            unsigned_val.wrapping_neg()
+        } else {
+            unsigned_val
+        }
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From 690823fd775d6cf81ebf8b985c1ddeed953f3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 06/32] fix: residuals beyond 16 bits were clamped, which
 corrupted the rest of the stream

---
 src/codec/adhoc/frame.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 161b657..0eba82a 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -243,9 +243,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around when out of range, the decoder wraps it back
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -280,9 +279,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around when out of range, the decoder wraps it back
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -329,10 +327,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //wraps around just like in the encoder
+                        let current = entropy.wrapping_add(predicted);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -356,10 +352,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //wraps around just like in the encoder
+                        let current = entropy.wrapping_add(predicted);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -389,7 +383,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = current.wrapping_sub(predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
-- 
2.43.0


From a7c705baa531d57661bd60b5d0029f07ecec712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 07/32] fix: decode must not touch the part of the buffer it
 does not fill

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 0f9b564..5119ad6 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -300,7 +300,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From bfeafc20af78dba1226e68a04135b0c00db99be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 08/32] fix: filesize_upperbound was 352 bits below the size of
 the saved file

---
 src/codec/adhoc.rs       | 7 +++++--
 src/codec/adhoc/frame.rs | 5 ++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 5119ad6..72f0e5a 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -105,11 +105,14 @@ impl AdhocCodec {
         */
         let audio_stream_header =         
             //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            //(plus one byte that tells whether there is info)
+            mem::size_of::<StreamInfo>() as u64 * 8 + 8; 
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
           //streams internal cursor + capacity 
-          128*2 ;
+          128*2 + 
+          //length of the list of chunks
+          64;
 
 
         let audio_stream_bits = audio_stream_header + bitstream;
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 0eba82a..8e89fb4 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -43,9 +43,8 @@ impl FrameHeaders {
     pub fn calculate_weight_upperbound(&self) -> u64 {
         let len = self.len() as u64;
 
-        //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //serde bincode puts the length of a vec, as 64 bit integer, before the elements
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From 6bf6207791167d4b005fd342ee870951ddfd46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 09/32] fix: seeking an AdhocCodec beyond its end panicked

---
 src/codec/adhoc.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 72f0e5a..11d37e9 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -362,7 +362,7 @@ impl Streamable for AdhocCodec {
         match dt {
             SeekFrom::Start(dt) => {
                 let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
@@ -388,6 +388,13 @@ impl Streamable for AdhocCodec {
 
                 //pinned down start header
                 let start_header_index = header_block_index * channels as usize;
+
+                //nothing to decode when seeking to the end or beyond
+                if header_block_index >= header_block_len {
+                    frame_header_list.set_cursor(frame_header_list.len() as u32);
+                    return;
+                }
+
                 let start_header = frame_header_list
                     .get(start_header_index)
                     .expect("start frame failed to fetch");
-- 
2.43.0


From 2b18ee3c47c69f7f5bdf7de178a93a48a98ac47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 10/32] fix: re-recording into a rewound codec kept headers of
 the previous recording

---
 src/codec/adhoc/frame.rs       | 29 ++++++++++++++++-------------
 src/collections/bitvec.rs      |  9 +++++++++
 src/collections/nibble_list.rs | 13 ++++++++++++-
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 8e89fb4..1383a48 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -46,7 +46,8 @@ impl FrameHeaders {
         //serde bincode puts the length of a vec, as 64 bit integer, before the elements
         let vector_header_size = 64;
 
-        let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
+        //two exponents per byte (the list may have room for more after a reuse)
+        let divisor_weight_in_bits = (len + 1) / 2 * 8 + vector_header_size;
 
         let is_init_weight_in_bits = self.is_init_frame_list.capacity() as u64 + vector_header_size;
 
@@ -94,20 +95,22 @@ impl FrameHeaders {
         let header_cursor = self.header_cursor as usize;
         let is_init = is_init as u64;
 
-        if header_cursor >= self.divisor_exp_list.len() {
-            self.divisor_exp_list.push(exponent);
-            self.frame_size_list.push(num_samples);
-            self.bit_cursor_list.push(bit_cursor as u64);
-            self.is_init_frame_list.push(is_init);
-            self.stack_history_list.push(stack_history);
-        } else {
-            self.divisor_exp_list.set(header_cursor, exponent);
-            self.is_init_frame_list.set(header_cursor, is_init);
-            self.frame_size_list[header_cursor] = num_samples;
-            self.bit_cursor_list[header_cursor] = bit_cursor as u64;
-            self.stack_history_list[header_cursor] = stack_history;
+        //when storage is reused, headers of the previous recording must not
+        //follow the ones of the new recording
+        if header_cursor < self.divisor_exp_list.len() {
+            self.divisor_exp_list.truncate(header_cursor);
+            self.is_init_frame_list.truncate(header_cursor);
+            self.frame_size_list.truncate(header_cursor);
+            self.bit_cursor_list.truncate(header_cursor);
+            self.stack_history_list.truncate(header_cursor);
         }
 
+        self.divisor_exp_list.push(exponent);
+        self.frame_size_list.push(num_samples);
+        self.bit_cursor_list.push(bit_cursor as u64);
+        self.is_init_frame_list.push(is_init);
+        self.stack_history_list.push(stack_history);
+
         self.header_cursor += 1;
     }
 
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index e7a858f..09e8aa9 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -21,6 +21,15 @@ impl BitVec {
         self.bit_cursor = 0;
     }
 
+    /// # Description
+    /// drops all bits from index `len` on
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.bit_cursor = len as u128;
+            self.binary.truncate(Self::compute_bits_required(len as u64) / 64);
+        }
+    }
+
     /// # Description
     /// return number of bits written to vector
     pub fn len(&self) -> usize {
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 6fbb91e..a0de46b 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -35,7 +35,9 @@ impl NibbleList {
         if block_idx >= self.data.len() {
             self.data.push(0);
         }
-        self.data[block_idx] |= val << 4 * (nibble_idx);
+        //the block may hold nibbles that were removed earlier
+        self.data[block_idx] &= !(0x0f << 4 * (nibble_idx));
+        self.data[block_idx] |= (val & 0x0f) << 4 * (nibble_idx);
         self.nibble_count += 1;
     }
 
@@ -62,6 +64,15 @@ impl NibbleList {
         self.nibble_count = 0;
     }
 
+    /// # Description
+    /// drops all nibbles from index `len` on
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.nibble_count = len as u32;
+            self.data.truncate((len + 1) / 2);
+        }
+    }
+
     pub fn iter<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
         (0..self.len()).map(move |idx| self.get(idx))
     }
-- 
2.43.0


From b9f065c0a26aa4cc68883be46d38b59bfc485257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 11/32] fix: write_bits left older data and surplus bits of the
 value in the stream

---
 src/collections/bitstream.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 075d129..1a61ffe 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -114,7 +114,12 @@ impl BitStream {
         T: Copy,
         u128: From<T>,
     {
-        let bits = u128::from(val);
+        //only the lowest `num_bits` bits belong into the stream
+        let mask = 1u128
+            .checked_shl(num_bits as u32)
+            .map(|result| result - 1)
+            .unwrap_or(!0);
+        let bits = u128::from(val) & mask;
         let bits_to_be_written = num_bits;
         let cur_chunk_idx = self.chunk_index();
         let nxt_chunk_idx = cur_chunk_idx + 1;
@@ -129,10 +134,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
-            //write
-            self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
+            //clear older data and write
+            self.binary[nxt_chunk_idx] = bits >> remaining_bits;
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
-- 
2.43.0


From 0ba9edb79a692d0c668d843f62888eaf84bf092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 12/32] fix: reading a bit stream beyond its end grew the
 stream

---
 src/collections/bitstream.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 1a61ffe..8727049 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -139,6 +139,7 @@ impl BitStream {
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
+        self.capacity = self.bit_cursor.max(self.capacity);
     }
 
     pub fn peek_bits(&mut self, num_bits: usize) -> u128 {
@@ -154,9 +155,6 @@ impl BitStream {
         let nxt_chunk_idx = cur_chunk_idx + 1;
         let chunk_bit_idx = self.chunk_bit_index();
 
-        self.allocate_if_needed(cur_chunk_idx);
-        self.allocate_if_needed(nxt_chunk_idx);
-
         // return 0 if oob
         if cur_chunk_idx >= self.binary.len() {
             return 0;
@@ -164,7 +162,7 @@ impl BitStream {
 
         bits |= self.binary[cur_chunk_idx] >> chunk_bit_idx;
         let remaining_bits = 128 - chunk_bit_idx;
-        if remaining_bits < bits_to_be_read {
+        if remaining_bits < bits_to_be_read && nxt_chunk_idx < self.binary.len() {
             bits |= self.binary[nxt_chunk_idx] << remaining_bits
         }
 
@@ -183,6 +181,7 @@ impl BitStream {
         self.binary[chunk_idx] &= (1 << chunk_bit_idx) - 1;
         self.binary[chunk_idx] |= bit << chunk_bit_idx;
         self.offset_bit_cursor(1);
+        self.capacity = self.bit_cursor.max(self.capacity);
     }
 
     /// # Description
@@ -369,7 +368,6 @@ impl BitStream {
     }
     pub fn offset_bit_cursor(&mut self, offset: i128) {
         self.bit_cursor = (self.bit_cursor as i128 + offset) as u128;
-        self.capacity = self.bit_cursor.max(self.capacity);
     }
 
     pub fn set_bit_cursor(&mut self, idx: u128) {
-- 
2.43.0


From b6790f454ec4ddda9c776dbfb111876e354061e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 13/32] fix: AdhocCodec::load accepted corrupt files that
 panic, hang or exhaust memory later

---
 src/codec/adhoc.rs             | 14 +++++++++++++-
 src/codec/adhoc/frame.rs       | 18 ++++++++++++++++++
 src/collections/bitvec.rs      |  7 +++++++
 src/collections/nibble_list.rs |  6 ++++++
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 11d37e9..834a2f0 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -197,8 +197,20 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+
+                //refuse corrupt files
+                let stream_len = slim.stream.capacity_upperbound() as u64;
+                let max_channels = slim.frame_header_list.len().max(u16::MAX as usize);
+                if slim.compression_level > 10
+                    || info.channels == 0
+                    || info.channels as usize > max_channels
+                    || slim.frame_header_list.is_valid(stream_len) == false
+                {
+                    return None;
+                }
+
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1383a48..1cd555e 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -139,6 +139,24 @@ impl FrameHeaders {
         self.divisor_exp_list.len()
     }
 
+    /// # Description
+    /// tells whether the lists fit each other and a stream of `stream_len` bits,
+    /// always true unless deserialized from corrupt data
+    pub fn is_valid(&self, stream_len: u64) -> bool {
+        let len = self.len();
+
+        //every sample takes at least 2 bits
+        let min_stream_len = self.frame_size_list.iter().map(|&size| size as u64 * 2).sum::<u64>();
+
+        self.divisor_exp_list.is_valid()
+            && self.is_init_frame_list.is_valid()
+            && self.is_init_frame_list.len() == len
+            && self.frame_size_list.len() == len
+            && self.bit_cursor_list.len() == len
+            && self.stack_history_list.len() == len
+            && min_stream_len <= stream_len
+    }
+
     pub fn reset(&mut self) {
         self.header_cursor = 0;
     }
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index 09e8aa9..622a1f7 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -17,6 +17,13 @@ impl BitVec {
         }
     }
 
+    /// # Description
+    /// tells whether the storage fits the number of bits, always true unless deserialized from corrupt data
+    pub fn is_valid(&self) -> bool {
+        self.bit_cursor <= self.capacity() as u128
+            && self.capacity() == Self::compute_bits_required(self.len() as u64)
+    }
+
     pub fn clear(&mut self) {
         self.bit_cursor = 0;
     }
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index a0de46b..a5c5196 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -60,6 +60,12 @@ impl NibbleList {
         self.data[block_idx] |= val << 4 * (nibble_idx);
     }
 
+    /// # Description
+    /// tells whether the storage fits the number of nibbles, always true unless deserialized from corrupt data
+    pub fn is_valid(&self) -> bool {
+        self.data.len() == (self.len() + 1) / 2
+    }
+
     pub fn clear(&mut self) {
         self.nibble_count = 0;
     }
-- 
2.43.0


From be4edf7e0a8d41678b6a08fcd9014bd37a81f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 14/32] fix: WavCodec::decode read its byte buffer through
 misaligned i16 references

---
 src/codec/wav.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..ea4c1ee 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -225,13 +225,9 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
-    }
-
-    #[allow(dead_code)]
-    fn get_pcm_mut(pcm: &mut Vec<u8>) -> &mut [i16] {
-        unsafe { slice::from_raw_parts_mut(pcm.as_ptr() as *mut i16, pcm.len() / 2) }
+    /// fetches sample number `idx` (a byte buffer isn't necessarily aligned for i16)
+    fn get_sample(pcm: &[u8], idx: usize) -> i16 {
+        i16::from_le_bytes([pcm[2 * idx], pcm[2 * idx + 1]])
     }
 
     /// writes a sample at current cursor positions (will offset the cursor)
@@ -279,13 +275,12 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let sample_i16 = Self::get_sample(&self.pcm, *cursor as usize);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From b50f493ca289a2242a9f1d474994b05f4b346a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 15/32] fix: WavCodec::seek ignored the end, left frame
 boundaries and panicked on empty streams

---
 src/codec/wav.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index ea4c1ee..2c075aa 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -293,26 +293,25 @@ impl Streamable for WavCodec {
     fn seek(&mut self, dt: SeekFrom) {
         let sample_rate = self.info.sample_rate as f32;
         let num_channels = self.info.channels() as i64;
-        let num_samples = self.num_samples() as i64;
+        let num_blocks = self.num_samples() as i64 / num_channels;
 
         let sample_rate_in_milliseconds = sample_rate / 1000.0;
 
         match dt {
             SeekFrom::Current(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                let block_index = self.short_cursor as i64 / num_channels;
+                let block_index = block_index.saturating_add(sample_offset).clamp(0, num_blocks);
+                self.short_cursor = (block_index * num_channels) as u64;
             }
             SeekFrom::Start(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                self.short_cursor = (sample_offset.clamp(0, num_blocks) * num_channels) as u64;
             }
             SeekFrom::End(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                let block_index = num_blocks.saturating_add(sample_offset).clamp(0, num_blocks);
+                self.short_cursor = (block_index * num_channels) as u64;
             }
         }
     }
-- 
2.43.0


From 26c28b9a2e6c5ea9373cbab82769f7d4fd8111d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 16/32] fix: WavCodec::load misread files with other chunks
 around the data or below 256 bytes

---
 src/codec/wav.rs | 94 ++++++++++++++++++++++++------------------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 2c075aa..961d2e7 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -73,12 +73,6 @@ impl RawWavHeader {
             slice::from_raw_parts(bytes, mem::size_of::<RawWavHeader>())
         }
     }
-    pub fn as_bytes_mut(&mut self) -> &mut [u8] {
-        unsafe {
-            let bytes: *mut u8 = mem::transmute(self);
-            slice::from_raw_parts_mut(bytes, mem::size_of::<RawWavHeader>())
-        }
-    }
 }
 
 /// # Description
@@ -135,46 +129,49 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
+        let mut header = RawWavHeader::default();
 
+        //skip "RIFF", the file size and "WAVE"
+        let mut riff_header = [0u8; 12];
         wav_res
-            .read_exact(&mut header_binary)
+            .read_exact(&mut riff_header)
             .map_err(|_| "failed to read header bytes")?;
 
-        let mut header_slice = &header_binary[..];
-        let mut header = RawWavHeader::default();
+        //walk over the chunks until the data region is found
+        loop {
+            let mut chunk_header = [0u8; 8];
+            wav_res
+                .read_exact(&mut chunk_header)
+                .map_err(|_| "data region not found")?;
+            let [a, b, c, d, size @ ..] = chunk_header;
+            let chunk_id = [a, b, c, d];
+            let chunk_size = u32::from_le_bytes(size);
+
+            if chunk_id == header.data_header {
+                header.file_size_data = chunk_size;
+                break;
+            }
 
-        // println!("buffer size ={}", wav_binary.len());
-
-        let (data_start, _) = header_binary
-            .windows(4)
-            .enumerate()
-            .find(|(_, window)| {
-                let number = [b'd', b'a', b't', b'a'];
-                window == &number
-            })
-            .ok_or("data region not found")?;
-
-        header_slice
-            .clone()
-            .read(header.as_bytes_mut())
-            .map_err(|_| "header failed to read")?;
-
-        header
-            .data_header
-            .iter_mut()
-            .zip(header_slice[data_start..data_start + 4].iter())
-            .for_each(|(data_header_byte, &b)| {
-                *data_header_byte = b;
-            });
-
-        header_slice = &header_slice[data_start + 4..];
-        header.file_size_data = u32::from_le_bytes([
-            header_slice[0],
-            header_slice[1],
-            header_slice[2],
-            header_slice[3],
-        ]);
+            //chunks are padded to an even size
+            let mut bytes_to_skip = chunk_size as i64 + (chunk_size & 1) as i64;
+
+            if chunk_id == header.fmt && chunk_size >= 16 {
+                let mut fmt = [0u8; 16];
+                wav_res
+                    .read_exact(&mut fmt)
+                    .map_err(|_| "header failed to read")?;
+                header.cksize = chunk_size;
+                header.audio_format = i16::from_le_bytes([fmt[0], fmt[1]]);
+                header.num_channels = i16::from_le_bytes([fmt[2], fmt[3]]);
+                header.frequncy = i32::from_le_bytes([fmt[4], fmt[5], fmt[6], fmt[7]]);
+                header.bits_per_sample = i16::from_le_bytes([fmt[14], fmt[15]]);
+                bytes_to_skip -= fmt.len() as i64;
+            }
+
+            wav_res
+                .seek(SeekFrom::Current(bytes_to_skip))
+                .map_err(|_| "failed to seek to next chunk")?;
+        }
 
         if header.bits_per_sample != 16 && header.bits_per_sample != 8 {
             return Err("invalid bits per sample, either 16 or 8 bits per sample is supported ");
@@ -182,19 +179,24 @@ impl WavCodec {
         if header.audio_format != 1 {
             return Err("formats other than PCM liner isn't supported");
         }
+        if header.num_channels == 0 {
+            return Err("there has to be at least one channel");
+        }
 
         // println!("parsed header: {}",header);
         // println!("pcm data = {} byles", wav_binary.len());
 
-        wav_res
-            .seek(SeekFrom::Start(data_start as u64 + 8))
-            .map_err(|_| "failed to seek to pcm data")?;
-
         let mut pcm = Vec::<u8>::new();
         wav_res
+            .take(header.file_size_data as u64)
             .read_to_end(&mut pcm)
             .map_err(|_| "failed to read to end")?;
 
+        //leave out a partial sample block at the end
+        let num_channels = header.num_channels as u16 as usize;
+        let bytes_per_block = num_channels * (header.bits_per_sample / 8) as usize;
+        pcm.truncate((pcm.len() / bytes_per_block) * bytes_per_block);
+
         if header.bits_per_sample == 8 {
             //convert 8bit stream to 16bit
             let len = pcm.len();
@@ -214,7 +216,7 @@ impl WavCodec {
         Ok(Self {
             info: StreamInfo {
                 sample_rate: header.frequncy as u32,
-                channels: header.num_channels as u32,
+                channels: num_channels as u32,
             },
             pcm,
             short_cursor: 0,
-- 
2.43.0


From b1c67a4e8ec99edf561865cbb969c49d068abae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 17/32] fix: WavCodec::save_to overflows for many channels or a
 high sample rate

---
 src/codec/wav.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 961d2e7..7d5f3fa 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -113,8 +113,9 @@ impl WavCodec {
         header.audio_format = 1;
         header.num_channels = self.info.channels as i16;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        let bytes_per_block = self.info.channels.wrapping_mul(2);
+        header.bytes_per_sec = self.info.sample_rate.wrapping_mul(bytes_per_block) as i32;
+        header.block_align = bytes_per_block as i16;
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-- 
2.43.0


From 21432ec373e53cabc6b767ec42aad6670c303fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 18/32] fix: saving reported success although the destination
 took only a part

---
 src/codec/adhoc.rs | 5 +++--
 src/codec/wav.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 834a2f0..9bfae01 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -163,7 +163,7 @@ impl AdhocCodec {
     }
 
 
-    pub fn save_to<Resource>(&self, res: Resource) -> Option<()>
+    pub fn save_to<Resource>(&self, mut res: Resource) -> Option<()>
     where
         Resource: Write,
     {
@@ -180,7 +180,8 @@ impl AdhocCodec {
             frame_header_list: &self.frame_header_list,
         };
 
-        bincode::serialize_into(res, &slim).ok()
+        bincode::serialize_into(&mut res, &slim).ok()?;
+        res.flush().ok()
     }
 
     pub fn load<Resource>(res: Resource) -> Option<Self>
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 7d5f3fa..3924ecd 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -119,10 +119,11 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
-            .map_err(|_| "failed to write pcm data")
+            .map_err(|_| "failed to write pcm data")?;
+        dst.flush().map_err(|_| "failed to write pcm data")
     }
 
     /// parses and loads wav file
-- 
2.43.0


From a7105e0a556f995a2ef8d06ce530ca19ec6fa382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 19/32] fix: the command line tool cut input names at inner
 dots, so outputs could collide

---
 src/main.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..01073f9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,8 @@ pub fn convert_file(input: &Path, output_dir: &Path, compression_level: u32) ->
 
 fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32) -> Option<()> {
     let file = File::open(input).ok()?;
-    let file_name = input.file_stem()?;
+    let mut file_name = input.file_stem()?.to_os_string();
+    file_name.push(".adhoc");
 
     let mut parsed_wav = WavCodec::load(file).ok()?;
 
@@ -122,9 +123,6 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
 
     file_dest.push(file_name);
 
-    // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
-    
     // println!("final dest = {:?}",file_dest);
 
     compressed_wav.save_to(File::create(file_dest).ok()?);
@@ -133,7 +131,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
 }
 fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let file = File::open(input).ok()?;
-    let file_name = input.file_stem()?;
+    let mut file_name = input.file_stem()?.to_os_string();
+    file_name.push(".wav");
 
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
@@ -146,7 +145,6 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
 
     let mut file_dest = PathBuf::from(output_dir);
     file_dest.push(file_name);
-    file_dest.set_extension("wav");
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
-- 
2.43.0


From 84c3a6674a4c160d9c36b59ff806aee74137f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 20/32] fix: the command line tool lost all audio of streams
 with more than 1024 channels

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 01073f9..55bd538 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
         .with_compression_level(compression_level)
         .with_info(parsed_wav.info());
 
-    let mut buffer = [0.0; 1024];
+    //decode(..) needs room for at least one sample of each channel
+    let mut buffer = vec![0.0; parsed_wav.info().channels().max(1024)];
     while let Some(samples_read) = parsed_wav.decode(&mut buffer[..]) {
         compressed_wav.encode(&buffer[0..samples_read]);
     }
@@ -137,7 +138,8 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let mut src_adhoc = AdhocCodec::load(file)?;
     let mut dst_wav = WavCodec::new(src_adhoc.info());
 
-    let mut buffer = [0.0; 1024];
+    //decode(..) needs room for at least one sample of each channel
+    let mut buffer = vec![0.0; src_adhoc.info().channels().max(1024)];
 
     while let Some(samples_read) = src_adhoc.decode(&mut buffer[..]) {
         dst_wav.encode(&buffer[0..samples_read]);
-- 
2.43.0


From 031ae14beb83c53c9cf3cf706dc36db018eb8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 21/32] fix: CircularStack::is_empty told whether the stack is
 full

---
 src/collections/stack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/stack.rs b/src/collections/stack.rs
index f53592a..edf6a99 100755
--- a/src/collections/stack.rs
+++ b/src/collections/stack.rs
@@ -28,7 +28,7 @@ where
     }
 
     pub fn is_empty(&self) -> bool {
-        self.len >= self.data.len() as u32
+        self.len == 0
     }
 
     pub fn push(&mut self, item: T) {
-- 
2.43.0


From 2db7b45fa8d7df2f5a00e7d8f8e4548e07d7e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 22/32] fix: NibbleList and BitVec accepted indices beyond
 their length and nibbles above 15

---
 src/collections/bitvec.rs      | 4 ++--
 src/collections/nibble_list.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index 622a1f7..a11c2cc 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -75,7 +75,7 @@ impl BitVec {
         let chunk_idx = Self::chunk_index(idx);
         let chunk_bit_idx = Self::chunk_bit_index(idx);
 
-        if chunk_idx >= self.binary.len() {
+        if idx >= self.bit_cursor {
             return 0;
         }
 
@@ -89,7 +89,7 @@ impl BitVec {
         let chunk_idx = Self::chunk_index(idx);
         let chunk_bit_idx = Self::chunk_bit_index(idx);
 
-        if chunk_idx >= self.binary.len() {
+        if idx >= self.bit_cursor {
             return;
         }
 
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index a5c5196..34ff83d 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -44,7 +44,7 @@ impl NibbleList {
     pub fn get(&self, idx: usize) -> u8 {
         let block_idx = idx / 2;
         let nibble_idx = idx % 2;
-        if block_idx >= self.data.len() {
+        if idx >= self.len() {
             return 0;
         }
         (self.data[block_idx] >> 4 * (nibble_idx)) & 0x0f
@@ -53,11 +53,11 @@ impl NibbleList {
     pub fn set(&mut self, idx: usize, val: u8) {
         let block_idx = idx / 2;
         let nibble_idx = (idx % 2) as u8;
-        if block_idx >= self.data.len() {
+        if idx >= self.len() {
             return;
         }
         self.data[block_idx] &= (0x0f * nibble_idx) | (0xf0 * (1 - nibble_idx));
-        self.data[block_idx] |= val << 4 * (nibble_idx);
+        self.data[block_idx] |= (val & 0x0f) << 4 * (nibble_idx);
     }
 
     /// # Description
-- 
2.43.0


From 4913682a8e48edb2dabda6b9d0d993302e08f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 23/32] fix: LinkedList::iter_mut handed out references that
 alias a shared borrow

---
 src/collections/linked_list.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/collections/linked_list.rs b/src/collections/linked_list.rs
index 65abe26..2596594 100755
--- a/src/collections/linked_list.rs
+++ b/src/collections/linked_list.rs
@@ -160,16 +160,15 @@ impl<T> LinkedList<T> {
     }
     
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        let self_ref: &mut Self = unsafe { std::mem::transmute(self as *mut Self) };
-        LinkedListIterator::new(self).map(move |node| {
-            let node = unsafe {
-                &mut *self_ref
-                    .memory
-                    .as_mut_ptr()
-                    .offset(node.as_usize() as isize)
-            };
-            node.data.as_mut().unwrap()
-        })
+        let nodes = LinkedListIterator::new(self).collect::<Vec<_>>();
+        let mut items = self
+            .memory
+            .iter_mut()
+            .map(|node| node.data.as_mut())
+            .collect::<Vec<_>>();
+        nodes
+            .into_iter()
+            .map(move |node| items[node.as_usize()].take().unwrap())
     }
 }
 
-- 
2.43.0


From 1bf7f1477358f93523e3aefb9130ef4cc1542425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 24/32] fix: level 0 changed 1537 of the 65536 sample values by
 one, although it is documented as lossless

---
 src/codec.rs             | 7 +++++++
 src/codec/adhoc/frame.rs | 8 ++++----
 src/codec/wav.rs         | 4 ++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index fcf0ae4..70f148f 100755
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -26,6 +26,13 @@ fn truncate_sample(samp: f32) -> i16 {
     (samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32)) as i16
 }
 
+/// rounds to the nearest 16 bit sample, so that samples from a 16 bit source don't change
+/// (predictions are truncated, which can't be changed without breaking the format)
+fn quantize_sample(samp: f32) -> i16 {
+    let scaled = samp.clamp(-1.0, 1.0) * ((i16::MAX) as f32);
+    (scaled + 0.5f32.copysign(scaled)) as i16
+}
+
 #[derive(Copy, Clone, Default, Serialize, Deserialize)]
 /// A POD that contains basic information about an audio signal
 /// ## Comments
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1cd555e..3af9484 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -232,7 +232,7 @@ impl FrameCodec {
                 let num_raw_samples = pcm.len().min(3);
                 for k in 0..num_raw_samples {
                     let samp = pcm[k];
-                    let truncated = truncate_sample(samp);
+                    let truncated = quantize_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
@@ -253,7 +253,7 @@ impl FrameCodec {
 
                 //entropy encode
                 for &sample in pcm[num_raw_samples..].iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -289,7 +289,7 @@ impl FrameCodec {
                 });
 
                 for &sample in pcm[..].iter() {
-                    let current = truncate_sample(sample);
+                    let current = quantize_sample(sample);
 
                     parabola.f = [
                         normalize_sample(sample_history.prev(3)),
@@ -395,7 +395,7 @@ impl FrameCodec {
         let mut parabola = FixedParabola::new();
         let mut sample_history = sample_history_ref.clone();
         for &sample in remaining_samples.iter() {
-            let current = truncate_sample(sample);
+            let current = quantize_sample(sample);
             parabola.f = [
                 normalize_sample(sample_history.prev(3)),
                 normalize_sample(sample_history.prev(2)),
diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 3924ecd..b5bf52b 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -5,7 +5,7 @@ use std::{
     slice, str,
 };
 
-use super::{normalize_sample, truncate_sample, StreamInfo, Streamable};
+use super::{normalize_sample, quantize_sample, StreamInfo, Streamable};
 
 #[derive(Debug)]
 #[repr(C, align(1))]
@@ -268,7 +268,7 @@ impl Streamable for WavCodec {
         let num_channels = self.info.channels();
         let valid_len = (samples.len() / num_channels) * num_channels;
         for &samp in &samples[0..valid_len] {
-            let sample_i16 = truncate_sample(samp);
+            let sample_i16 = quantize_sample(samp);
             self.write_sample(sample_i16);
         }
         Some(valid_len)
-- 
2.43.0


From 892e89b723823d278d68718137b0c1984cb537d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 25/32] fix: loading a damaged file panicked on 32-bit targets
 when its exponent list claims 2^32-1 entries

---
 src/collections/nibble_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 34ff83d..0ac1a47 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -63,7 +63,7 @@ impl NibbleList {
     /// # Description
     /// tells whether the storage fits the number of nibbles, always true unless deserialized from corrupt data
     pub fn is_valid(&self) -> bool {
-        self.data.len() == (self.len() + 1) / 2
+        self.data.len() == self.len() / 2 + self.len() % 2
     }
 
     pub fn clear(&mut self) {
-- 
2.43.0


From 165552ca2162bff64cd79185afb1318750699df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 26/32] fix: encoding more than 65537 channels overflowed on
 32-bit targets

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 9bfae01..bb5b1a5 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -340,7 +340,7 @@ impl Streamable for AdhocCodec {
 
         // a frame header stores the number of samples in 16 bits, so longer
         // input takes several frames (and empty input takes none)
-        let max_block_len = num_channels * u16::MAX as usize;
+        let max_block_len = num_channels.saturating_mul(u16::MAX as usize);
         for block in samples[0..valid_len].chunks(max_block_len) {
             self.encode(block);
         }
-- 
2.43.0


From cdef30050f452ece7d91ba41b175c92d51ffe4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 27/32] fix: streams of more than 2^32 bits could not be
 measured or loaded on 32-bit targets

---
 src/codec/adhoc.rs           | 4 ++--
 src/collections/bitstream.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index bb5b1a5..dd83bc5 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -108,7 +108,7 @@ impl AdhocCodec {
             //(plus one byte that tells whether there is info)
             mem::size_of::<StreamInfo>() as u64 * 8 + 8; 
 
-        let bitstream = self.stream.capacity_upperbound() as u64+ 
+        let bitstream = self.stream.capacity_upperbound() + 
           //streams internal cursor + capacity 
           128*2 + 
           //length of the list of chunks
@@ -201,7 +201,7 @@ impl AdhocCodec {
                 let info = slim.stream.info()?;
 
                 //refuse corrupt files
-                let stream_len = slim.stream.capacity_upperbound() as u64;
+                let stream_len = slim.stream.capacity_upperbound();
                 let max_channels = slim.frame_header_list.len().max(u16::MAX as usize);
                 if slim.compression_level > 10
                     || info.channels == 0
diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 8727049..9bb76d6 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -94,11 +94,12 @@ impl BitStream {
 
     /// # Description
     /// bits currently allocated in memory 
-    pub fn capacity_upperbound(&self)->usize{
+    pub fn capacity_upperbound(&self)->u64{
         // I don't do self.binary.capacity() because 
         // the bincode serializer only writes data
         // that has been Vec::push(..)'d 
-        self.binary.len() * 128
+        // (more bits than a 32-bit usize can count may fit in memory)
+        self.binary.len() as u64 * 128
     }
 
     /// # Description
-- 
2.43.0


From bdcee80184d5fa4b957b73a5b481be798bd8680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 28/32] fix: WAV recordings of 4 GB and more were saved with
 wrong sizes instead of an error

---
 src/codec/wav.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index b5bf52b..32bc410 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -107,6 +107,12 @@ impl WavCodec {
     where
         Resource: Write,
     {
+        //the sizes in the header have 32 bits
+        let max_pcm_len = u32::MAX as usize - (mem::size_of::<RawWavHeader>() - 8);
+        if self.pcm.len() > max_pcm_len {
+            return Err("too long for a wav file");
+        }
+
         let mut header = RawWavHeader::default();
         header.file_size = mem::size_of::<RawWavHeader>() as u32 - 8 + self.pcm.len() as u32;
         header.frequncy = self.info.sample_rate as i32;
-- 
2.43.0


From 3f524d957c8305ae636f7c6eb943a70e8286cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 29/32] fix: a damaged file with positions beyond 2^39 bits
 decoded differently on 32-bit targets

---
 src/collections/bitstream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 9bb76d6..1b61782 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -362,7 +362,8 @@ impl BitStream {
     }
 
     fn chunk_index(&self) -> usize {
-        (self.bit_cursor / 128) as usize
+        //a position too far for the address space isn't in any chunk
+        (self.bit_cursor / 128).min(usize::MAX as u128 - 1) as usize
     }
     fn chunk_bit_index(&self) -> usize {
         (self.bit_cursor % 128) as usize
-- 
2.43.0


From d8704e12af06462d4a15bee1f1eaf5529c2b6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 30/32] fix: one input file whose name is not UTF-8 stopped the
 whole batch of the command line tool

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 55bd538..636dace 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -63,7 +63,7 @@ pub fn cli() {
         )
         .get_matches();
 
-    let output_directory = m.value_of("output").unwrap_or("./");
+    let output_directory = m.value_of_os("output").unwrap_or("./".as_ref());
 
     if Path::new(output_directory).is_dir() == false {
         eprintln!("directory specified is not valid!");
@@ -71,7 +71,7 @@ pub fn cli() {
     }
 
     let input_files = m
-        .values_of("INPUT")
+        .values_of_os("INPUT")
         .map(|values| values.into_iter().collect::<Vec<_>>())
         .unwrap_or_default();
 
-- 
2.43.0


From 1937d1fef820c1c2bb021109f9e72dbc112f04ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 31/32] fix: WAV recordings with more than 65535 channels were
 saved with a wrong channel count instead of an error

---
 src/codec/wav.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 32bc410..41664d0 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -112,6 +112,9 @@ impl WavCodec {
         if self.pcm.len() > max_pcm_len {
             return Err("too long for a wav file");
         }
+        if self.info.channels > u16::MAX as u32 {
+            return Err("too many channels for a wav file");
+        }
 
         let mut header = RawWavHeader::default();
         header.file_size = mem::size_of::<RawWavHeader>() as u32 - 8 + self.pcm.len() as u32;
-- 
2.43.0


From 63599e5de7e1ef3fc7c5facea3a1c3e5e4cd30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 32/32] fix: an LRU cache with a capacity of 2^32 or more
 evicted too early or panicked

---
 src/collections/lru_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/lru_cache.rs b/src/collections/lru_cache.rs
index afbb94d..f115f54 100755
--- a/src/collections/lru_cache.rs
+++ b/src/collections/lru_cache.rs
@@ -22,7 +22,7 @@ where
         Self {
             table: HashMap::new(),
             list: LinkedList::new(),
-            capacity: capacity as u32,
+            capacity: capacity.min(u32::MAX as usize) as u32,
         }
     }
     pub fn len(&self) -> usize {
-- 
2.43.0

