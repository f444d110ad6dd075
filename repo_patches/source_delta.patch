From 759b9432b8d8991cb12b01c721ed342fef445283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 1/9] fix: zero the bitmap on clear

Bitmap::clear() kept the old bytes, and append(false) never clears a bit, so
a reused bitmap reported stale bits as set (nulls came back as values).
---
 src/store/indexing_buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index e129fed..550cb88 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -86,6 +86,7 @@ impl Bitmap {
 
     pub fn clear(&mut self) {
         self.len = 0;
+        self.values.clear();
         self.values.resize(INITIAL_BITMAP_CAP, 0);
     }
 }
-- 
2.43.0


From d6554ed96ed2f8714c2e0445a42b5a64411a6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 2/9] fix: allow bitmaps created with a capacity smaller than 8

with_capacity(n) with n < 8 allocated zero bytes and append() grows the
storage by doubling it, so the first append() panicked.
---
 src/store/indexing_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 550cb88..45e27ba 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -44,7 +44,7 @@ impl Bitmap {
 
     pub fn with_capacity(cap: usize) -> Self {
         Self {
-            values: vec![0; cap >> 3],
+            values: vec![0; (cap >> 3) + 1],
             len: 0,
         }
     }
-- 
2.43.0


From 58830afbe16b6c37562d9dbe2ac3fab42e8f8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 3/9] fix: compare pending bytes, not items, with the block
 size

The primitive encoder topped the pending values up to the block size in bytes
and then compared the number of *items* with it, so it returned early and
dropped the rest of the buffer.
---
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 23cb57b..f3e8c0f 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -120,7 +120,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
 
             buf_pos = chunk_end;
 
-            if self.remaining.len() < self.min_block_size {
+            if self.remaining.len() * size_of::<T>() < self.min_block_size {
                 return Ok(());
             }
 
-- 
2.43.0


From 7bdf03acdb07b1b3c29d3bce6a607080e0c7f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 4/9] fix: make binary chunk ends absolute

find_position() counts from start_pos, so every chunk but the first of a
buffer ended at the wrong item: its offsets were wrong, its length underflowed
or the encoder emitted the same block forever.
---
 src/store/encoding/raw/binary_enc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index b6dff15..57bdf4f 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -237,7 +237,7 @@ pub fn chunk(buffer: &BinaryBuffer, start_pos: usize, min_size: u64) -> BinaryCh
         .find_position(|offset| (*offset - start_offset) as u64 >= min_size);
 
     let (end_pos, end_offset) = match maybe_end_pos {
-        Some(pos) => (pos.0, *pos.1),
+        Some(pos) => (start_pos + pos.0, *pos.1),
         None => (
             buffer.offsets().len() - 1,
             buffer.offsets()[buffer.offsets().len() - 1],
-- 
2.43.0


From 6d71e2d7b4bc2f1c08615fe2255418416ee9ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 5/9] fix: count only the rows of the block in nullable columns

encode_*_buffer() returned the absolute validity position as the number of
rows, so the second and later blocks of a nullable buffer were given row ids
that counted the earlier rows again.
---
 src/store/encoding/raw/binary_enc.rs    | 2 +-
 src/store/encoding/raw/primitive_enc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index 57bdf4f..da2bbd8 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -208,7 +208,7 @@ fn encode_binary_buffer(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index f3e8c0f..7a379d7 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -186,7 +186,7 @@ fn encode_primitive_buffer<T: Clone>(
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
             EncodeResult {
-                num_rows: last_bit_pos,
+                num_rows: last_bit_pos - bit_pos,
                 last_validity_pos: last_bit_pos,
             }
         }
-- 
2.43.0


From 73f99cae1f4442b2f5a7b3a37cb29a35382acc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 6/9] fix: compute the offsets bit width chunk by chunk

BitPacker::num_bits() panics unless it is given exactly BLOCK_LEN values, so
encoding a binary block with more than 128 items (or none) panicked.
---
 src/store/encoding/offsets.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2f9b93d..2e1a53d 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -39,7 +39,12 @@ impl OffsetEncoder {
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
-        let num_bits = self.bitpacker.num_bits(src);
+        // all the chunks share the same width.
+        let mut num_bits = 0;
+
+        for chunk in src.chunks(BitPacker4x::BLOCK_LEN) {
+            num_bits = num_bits.max(self.bitpacker.num_bits(chunk));
+        }
 
         dst.push(num_bits);
 
-- 
2.43.0


From ffd68380bf9cb509c5751c2403ee4193246e4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 7/9] fix: keep the whole last chunk of bitpacked offsets

BitPacker4x interleaves the values of a chunk over four lanes, so cutting the
packed chunk at num_bits * num_values bits dropped bits of real offsets and the
items of the block could not be told apart.
---
 src/store/encoding/offsets.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/store/encoding/offsets.rs b/src/store/encoding/offsets.rs
index 2e1a53d..bf1a553 100644
--- a/src/store/encoding/offsets.rs
+++ b/src/store/encoding/offsets.rs
@@ -33,9 +33,9 @@ impl OffsetEncoder {
     /// │      1 Byte       │         N Byte          │
     /// └───────────────────┴─────────────────────────┘
     /// ```
+    /// The last chunk is padded with zeros. `BitPacker4x` interleaves the values
+    /// of a chunk, so the padding cannot be trimmed.
     pub fn encode(&mut self, src: &mut Vec<u32>, dst: &mut Vec<u8>) {
-        let num_values = src.len();
-
         let len_padded = round_upto_power_of_2(src.len(), BitPacker4x::BLOCK_LEN);
         src.resize(len_padded, 0);
 
@@ -48,9 +48,7 @@ impl OffsetEncoder {
 
         dst.push(num_bits);
 
-        let encoded_data_start = dst.len();
-
-        let mut chunk_start = encoded_data_start;
+        let mut chunk_start = dst.len();
 
         dst.resize(dst.len() + ceil8(num_bits as usize * len_padded), 0);
 
@@ -60,10 +58,5 @@ impl OffsetEncoder {
                 .compress(chunk, &mut dst[chunk_start..], num_bits);
             chunk_start += compressed_len;
         }
-
-        // trim to remove the encoded padding.
-        let encoded_data_len = encoded_data_start + ceil8(num_bits as usize * num_values);
-
-        dst.resize(encoded_data_len, 0);
     }
 }
-- 
2.43.0


From 1f1afe152c2076a6ced6742eee2d4403ea8d6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 8/9] fix: use 128KiB blocks

BLOCK_SIZE was 1 << 7 (128 bytes) where the comment and the io module ask for
128KiB.
---
 src/store/segment_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/segment_writer.rs b/src/store/segment_writer.rs
index ab4a48d..7977d78 100644
--- a/src/store/segment_writer.rs
+++ b/src/store/segment_writer.rs
@@ -109,7 +109,7 @@ const DATA_FILE_SIGNATURE: [u8; 13] = *b"MEERKAT_DATA1";
 const INDEX_FILE_SIGNATURE: [u8; 12] = *b"MEERKAT_IDX1";
 const DATA_FILE_EXT: &str = "dat";
 const INDEX_FILE_EXT: &str = "idx";
-const BLOCK_SIZE: u32 = 1 << 7; // 128k block size
+const BLOCK_SIZE: u32 = 1 << 17; // 128k block size
 
 /// ColumnInfo provides details about the column to be indexed.
 pub struct ColumnInfo {
-- 
2.43.0


From 849b3a29358f6157407f14c2d62f9ceb37bb8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 9/9] fix: keep the nulls after the last value of a buffer

Validity was copied and encoded only up to the last non-null value, so the
trailing nulls of every buffer (and whole buffers of nulls) vanished from the
segment and the row ids of the following rows were wrong.
---
 src/store/encoding/bitmap_rle.rs        | 10 +++++++++
 src/store/encoding/raw/binary_enc.rs    | 10 ++++++---
 src/store/encoding/raw/primitive_enc.rs | 14 +++++++------
 src/store/indexing_buffer.rs            | 28 +++++++++++++++++++++++--
 4 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/store/encoding/bitmap_rle.rs b/src/store/encoding/bitmap_rle.rs
index 1e3b342..a9c4864 100644
--- a/src/store/encoding/bitmap_rle.rs
+++ b/src/store/encoding/bitmap_rle.rs
@@ -80,6 +80,16 @@ impl Encoder {
         bit_pos
     }
 
+    /// encode all the items of `bitmap` from `start_pos` on.
+    pub fn put_rest(&mut self, bitmap: &Bitmap, start_pos: usize) -> usize {
+        let mut bit_pos = start_pos;
+        while bit_pos < bitmap.len() {
+            self.put(bitmap.is_set(bit_pos));
+            bit_pos += 1;
+        }
+        bit_pos
+    }
+
     /// flush the internal buffer and encode pending values.
     /// once the encoder is flushed use `encoded_values()` to access the encoded
     /// buffer.
diff --git a/src/store/encoding/raw/binary_enc.rs b/src/store/encoding/raw/binary_enc.rs
index da2bbd8..f8410da 100644
--- a/src/store/encoding/raw/binary_enc.rs
+++ b/src/store/encoding/raw/binary_enc.rs
@@ -125,7 +125,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.data().len();
 
             let chunk = chunk(buffer, 0, self.min_block_size - remaining_size as u64);
@@ -162,7 +162,7 @@ impl<S: BlockSink + Send> BlockEncoder<BinaryBuffer, S> for Encoder {
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -203,7 +203,11 @@ fn encode_binary_buffer(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, chunk.len);
+            if chunk.end_pos == buf.len() {
+                // the nulls after the last value.
+                last_bit_pos = bitmap_encoder.put_rest(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/encoding/raw/primitive_enc.rs b/src/store/encoding/raw/primitive_enc.rs
index 7a379d7..d463699 100644
--- a/src/store/encoding/raw/primitive_enc.rs
+++ b/src/store/encoding/raw/primitive_enc.rs
@@ -111,7 +111,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
         let mut buf_pos = 0;
         let mut validity_pos = 0;
 
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             let remaining_size = self.remaining.len() * std::mem::size_of::<T>();
 
             let chunk_end = chunk(buffer, 0, self.min_block_size - remaining_size);
@@ -129,7 +129,7 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             self.remaining.clear();
         }
 
-        while buf_pos < buffer.len() {
+        loop {
             let chunk_end = chunk(buffer, buf_pos, self.min_block_size);
 
             let chunk_len = chunk_end - buf_pos;
@@ -148,12 +148,10 @@ impl<T: Send + Sync + Clone, S: BlockSink + Send> BlockEncoder<PrimitiveBuffer<T
             buf_pos = chunk_end;
             validity_pos = result.last_validity_pos;
         }
-
-        Ok(())
     }
 
     async fn flush(&mut self, sink: &mut S) -> Result<EncoderLayout> {
-        if self.remaining.len() > 0 {
+        if self.remaining.num_values() > 0 {
             self.write_remaining(sink).await?;
         }
 
@@ -181,7 +179,11 @@ fn encode_primitive_buffer<T: Clone>(
     match buf.validity() {
         Some(ref mut validity) => {
             bitmap_encoder.clear();
-            let last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            let mut last_bit_pos = bitmap_encoder.put_from(validity, bit_pos, block_len);
+            if end == buf.len() {
+                // the nulls after the last value.
+                last_bit_pos = bitmap_encoder.put_rest(validity, last_bit_pos);
+            }
             bitmap_encoder.flush();
             encoded_data.extend_from_slice(bitmap_encoder.encoded_values());
 
diff --git a/src/store/indexing_buffer.rs b/src/store/indexing_buffer.rs
index 45e27ba..3c84aae 100644
--- a/src/store/indexing_buffer.rs
+++ b/src/store/indexing_buffer.rs
@@ -75,6 +75,16 @@ impl Bitmap {
         bit_pos
     }
 
+    /// Append all the items of `src` from `start_pos` on.
+    pub fn append_rest(&mut self, src: &Bitmap, start_pos: usize) -> usize {
+        let mut bit_pos = start_pos;
+        while bit_pos < src.len() {
+            self.append(src.is_set(bit_pos));
+            bit_pos += 1;
+        }
+        bit_pos
+    }
+
     pub fn is_set(&self, idx: usize) -> bool {
         assert!(idx < self.len);
         (self.values[idx >> 3] & BIT_MASK[idx & 7]) != 0
@@ -147,7 +157,14 @@ impl<T: Clone> PrimitiveBuffer<T> {
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
 
-            validity_dst.append_from(validity_src, validity_pos, num_values)
+            let last_pos = validity_dst.append_from(validity_src, validity_pos, num_values);
+
+            if end < buf.len() {
+                return last_pos;
+            }
+
+            // the nulls after the last value.
+            validity_dst.append_rest(validity_src, last_pos)
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             num_values
@@ -274,7 +291,14 @@ impl BinaryBuffer {
                 .validity
                 .as_mut()
                 .expect("trying to append validity on a non-nullable buffer");
-            validity_dst.append_from(validity_src, validity_pos, chunk_len)
+            let last_pos = validity_dst.append_from(validity_src, validity_pos, chunk_len);
+
+            if end < buf.len() {
+                return last_pos;
+            }
+
+            // the nulls after the last value.
+            validity_dst.append_rest(validity_src, last_pos)
         } else {
             assert!(self.validity.is_none(), "missing validity bitmap");
             chunk_len
-- 
2.43.0

