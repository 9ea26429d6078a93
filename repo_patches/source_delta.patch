From c5df8905cdbe81c20ff6cd070e32f404d853696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 01/12] fix: stored blocks ending in a match that crosses the
 end of the window

When the lz77 buffer filled up on a match extending past the end of the
second window, the input buffer was slid but the reported end position of the
block still referred to the old location, so a block output as stored
contained the wrong data (or indexing panicked).
---
 src/lz77.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 49c712e..7966039 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -676,6 +676,7 @@ pub fn lz77_compress_block(
                 // If overlap is non-zero, the buffer was full after outputting the last byte,
                 // otherwise we have to skip to the point in the buffer where we stopped in the
                 // next call.
+                let mut end_of_block = written;
                 state.overlap = if overlap > 0 {
                     if !state.is_first_window {
                         // If we are at the end of the window, make sure we slide the buffer and the
@@ -684,6 +685,8 @@ pub fn lz77_compress_block(
                             state.hash_table.slide(window_size);
                         }
                         remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
+                        // The data moved, so the position of the end of the block did too.
+                        end_of_block -= window_size;
                     } else {
                         state.is_first_window = false;
                     }
@@ -692,7 +695,7 @@ pub fn lz77_compress_block(
                     written - window_start
                 };
 
-                current_position = written - state.pending_byte_as_num();
+                current_position = end_of_block - state.pending_byte_as_num();
 
                 // Status is already EndBlock at this point.
                 // status = LZ77Status::EndBlock;
-- 
2.43.0


From 4e0743fb08b7edaa08f4ffd4d3b1cc9af18914dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 02/12] fix: reset the hash chains and the sync state when an
 encoder is reset

ChainedHashTable::reset filled a copy of the prev array, leaving the links of
the previous stream in place, and LZ77State::reset kept was_synced, so the
output after a reset could depend on what was compressed before it.
---
 src/chained_hash_table.rs | 6 +-----
 src/lz77.rs               | 3 ++-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 61c3fa2..fbe496c 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -98,11 +98,7 @@ impl ChainedHashTable {
     pub fn reset(&mut self) {
         self.current_hash = 0;
         reset_array(&mut self.c.head);
-        {
-            let h = self.c.head;
-            let mut c = self.c.prev;
-            c[..].copy_from_slice(&h[..]);
-        }
+        self.c.fill_prev();
         /*if cfg!(debug_assertions) {
             self.count.reset();
         }*/
diff --git a/src/lz77.rs b/src/lz77.rs
index 7966039..dd0a4b0 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -103,7 +103,8 @@ impl LZ77State {
         self.overlap = 0;
         self.current_block_input_bytes = 0;
         self.match_state = ChunkState::new();
-        self.bytes_to_hash = 0
+        self.bytes_to_hash = 0;
+        self.was_synced = false;
     }
 
     pub fn set_last(&mut self) {
-- 
2.43.0


From 248e93db2e16960036283a99f3c8b18fe40c8f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 03/12] fix: search every position when lazy_if_less_than is 0

With no match found the length is 0, which is not less than a
lazy_if_less_than of 0, so every second position was skipped instead of
behaving like greedy matching as documented.
---
 src/lz77.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index dd0a4b0..8f7fd67 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -331,7 +331,8 @@ fn process_chunk_lazy(
     // Set to true if we found a match that is equal to or longer than `lazy_if_less_than`,
     // indicating that we won't lazy match (check for a better match at the next byte).
     // If we had a good match, carry this over from the previous call.
-    let mut ignore_next = prev_length as usize >= lazy_if_less_than;
+    let mut ignore_next =
+        prev_length >= MIN_MATCH as u16 && prev_length as usize >= lazy_if_less_than;
 
     // This is to output the correct byte in case there is one pending to be output
     // from the previous call.
@@ -372,7 +373,7 @@ fn process_chunk_lazy(
                     match_len = NO_LENGTH as usize;
                 };
 
-                if match_len >= lazy_if_less_than {
+                if match_len >= MIN_MATCH && match_len >= lazy_if_less_than {
                     // We found a decent match, so we won't check for a better one at the next byte.
                     ignore_next = true;
                 }
-- 
2.43.0


From b7fecde4978b17cbeff968138e0729fb02c3b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 04/12] fix: use the right code lengths when estimating the
 size of a block

The size of a fixed block was estimated with 8 bits per distance instead of 5
(the literal table was used), and code length code 16 was counted as having 3
extra bits rather than 2, so a block type that is not the shortest one could
be chosen.
---
 src/huffman_lengths.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index a5a153a..493d3ee 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -2,8 +2,8 @@ use crate::bitstream::LsbWriter;
 use crate::deflate_state::LengthBuffers;
 use crate::huffman_table::{
     create_codes_in_place, num_extra_bits_for_distance_code, num_extra_bits_for_length_code,
-    HuffmanTable, FIXED_CODE_LENGTHS, LENGTH_BITS_START, MAX_CODE_LENGTH, NUM_DISTANCE_CODES,
-    NUM_LITERALS_AND_LENGTHS,
+    HuffmanTable, FIXED_CODE_LENGTHS, FIXED_CODE_LENGTHS_DISTANCE, LENGTH_BITS_START,
+    MAX_CODE_LENGTH, NUM_DISTANCE_CODES, NUM_LITERALS_AND_LENGTHS,
 };
 use crate::length_encode::{
     encode_lengths_m, huffman_lengths_from_frequency_m, EncodedLength, COPY_PREVIOUS,
@@ -49,7 +49,8 @@ pub fn remove_trailing_zeroes<T: From<u8> + PartialEq>(input: &[T], min_length:
 /// How many extra bits the Huffman length code uses to represent a value.
 fn extra_bits_for_huffman_length_code(code: u8) -> u8 {
     match code {
-        16..=17 => 3,
+        16 => 2,
+        17 => 3,
         18 => 7,
         _ => 0,
     }
@@ -71,11 +72,12 @@ fn calculate_huffman_length(frequencies: &[FrequencyType], code_lengths: &[u8])
 /// code lengths (first return value) and static code lengths (second return value).
 ///
 /// Parameters:
-/// Frequencies, length of dynamic codes, and a function to get how many extra bits in addition
-/// to the length of the Huffman code the symbol will use.
+/// Frequencies, length of dynamic codes, length of static codes, and a function to get how many
+/// extra bits in addition to the length of the Huffman code the symbol will use.
 fn calculate_block_length<F>(
     frequencies: &[FrequencyType],
     dyn_code_lengths: &[u8],
+    static_code_lengths: &[u8],
     get_num_extra_bits: &F,
 ) -> (u64, u64)
 where
@@ -88,7 +90,7 @@ where
 
     let iter = frequencies
         .iter()
-        .zip(dyn_code_lengths.iter().zip(FIXED_CODE_LENGTHS.iter()))
+        .zip(dyn_code_lengths.iter().zip(static_code_lengths.iter()))
         .enumerate();
 
     // This could maybe be optimised a bit by splitting the iteration of codes using extra bits and
@@ -241,14 +243,17 @@ pub fn gen_huffman_lengths(
     // (excluding the 3-bit block header since it's used in all block types).
 
     // Total length of the compressed literals/lengths.
-    let (d_ll_length, s_ll_length) = calculate_block_length(l_freqs, l_lengths, &|c| {
-        num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8).into()
-    });
+    let (d_ll_length, s_ll_length) =
+        calculate_block_length(l_freqs, l_lengths, &FIXED_CODE_LENGTHS, &|c| {
+            num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8)
+                .into()
+        });
 
     // Total length of the compressed distances.
-    let (d_dist_length, s_dist_length) = calculate_block_length(d_freqs, d_lengths, &|c| {
-        num_extra_bits_for_distance_code(c as u8).into()
-    });
+    let (d_dist_length, s_dist_length) =
+        calculate_block_length(d_freqs, d_lengths, &FIXED_CODE_LENGTHS_DISTANCE, &|c| {
+            num_extra_bits_for_distance_code(c as u8).into()
+        });
 
     // Total length of the compressed huffman code lengths.
     let huff_table_length = calculate_huffman_length(&freqs, &huffman_table_lengths);
-- 
2.43.0


From c27bfda073be5bd7c10a817c50ec9c9ca2965138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 05/12] fix: write the zlib and gzip header when flushing
 before the first write

Flushing an encoder before anything had been written to it output the sync
block ahead of the header, producing an invalid stream.
---
 src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 1888a11..7273a29 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -272,6 +272,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
     /// This essentially finishes the current block, and sends an additional empty stored block to
     /// the writer.
     fn flush(&mut self) -> io::Result<()> {
+        self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
     }
 }
@@ -449,6 +450,7 @@ pub mod gzip {
         /// This essentially finishes the current block, and sends an additional empty stored
         /// block to the writer.
         fn flush(&mut self) -> io::Result<()> {
+            self.check_write_header();
             self.inner.flush()
         }
     }
-- 
2.43.0


From ef28d961e8ca3f18d2b79e526c7a8ed80195e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 06/12] fix: keep the state of the gzip header when resetting
 fails

If outputting the rest of the stream failed, the header for the next stream
was still queued, and was then inserted into the current stream.
---
 src/writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 7273a29..8c8dbe6 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -393,18 +393,18 @@ pub mod gzip {
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one. (Using a blank header).
         pub fn reset(&mut self, writer: W) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = GzBuilder::new().into_header();
-            w
+            Ok(w)
         }
 
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one, and using the provided `GzBuilder` to
         /// create the header.
         pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = builder.into_header();
-            w
+            Ok(w)
         }
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
-- 
2.43.0


From ba0922a421fe033f8ee7dacff7ff874451982565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 07/12] fix: report consumed input when the wrapped writer
 fails

If the wrapped writer returned an error after part of the input had been
consumed in the same call, write returned the error, so retrying compressed
that input twice and the checksums were not updated for it.
---
 src/compress.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 8223609..ac8bad1 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -94,11 +94,18 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
-            let written = deflate_state
+            let written = match deflate_state
                 .inner
                 .as_mut()
                 .expect("Missing writer!")
-                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
+            {
+                Ok(n) => n,
+                // Some of the input was already consumed, so this has to be reported first, as
+                // the caller would supply it again if we returned the error.
+                Err(_) if bytes_written > 0 => return Ok(bytes_written),
+                Err(e) => return Err(e),
+            };
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
-- 
2.43.0


From 8426b3edc47cd1ffe5cb11f465c09457b1aa7cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 08/12] fix: return WriteZero when the wrapped writer accepts
 no more data

When the wrapped writer kept returning Ok(0), such as a slice that is full,
flush and finish (and drop) never returned, and write kept returning
Interrupted so that write_all didn't either.
---
 src/compress.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index ac8bad1..a51c8f7 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -107,6 +107,11 @@ pub fn compress_data_dynamic_n<W: Write>(
                 Err(e) => return Err(e),
             };
 
+            if written == 0 && bytes_written == 0 {
+                // The writer won't accept more data, so trying again will not help.
+                return Err(io::ErrorKind::WriteZero.into());
+            }
+
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
                 deflate_state.output_buf_pos += written;
@@ -297,6 +302,10 @@ pub fn compress_data_dynamic_n<W: Write>(
             .checked_sub(output_buf_pos)
             .unwrap()
     {
+        if written_to_writer == 0 {
+            // The writer won't accept more data, so trying again will not help.
+            return Err(io::ErrorKind::WriteZero.into());
+        }
         deflate_state.output_buf_pos += written_to_writer;
     } else {
         // If we sucessfully wrote all the data, we can clear the output buffer.
-- 
2.43.0


From adc5640edc1eaf88b0066899c7e409d27f27444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 09/12] fix: continue correctly after a sync flush that failed

After a failed flush, finish only output what was left of the flush and
returned without ending the stream, and write returned Ok(0) without consuming
anything, while the zlib and gzip encoders added the data to the checksum.
---
 src/compress.rs | 15 +++++++++++++++
 src/writer.rs   |  7 ++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index a51c8f7..c0405b8 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -84,6 +84,9 @@ pub fn compress_data_dynamic_n<W: Write>(
 ) -> io::Result<usize> {
     let mut bytes_written = 0;
 
+    // Whether there is output left from a sync flush that did not complete.
+    let unfinished_sync = deflate_state.needs_flush;
+
     let mut slice = input;
 
     // enter the decompression loop unless we did a sync flush, in case we want to make sure
@@ -314,6 +317,18 @@ pub fn compress_data_dynamic_n<W: Write>(
         deflate_state.needs_flush = false;
     }
 
+    // If we were only finishing up an earlier sync flush so far, there is still the rest to do.
+    if unfinished_sync && flush != Flush::Sync {
+        if !deflate_state.needs_flush {
+            return compress_data_dynamic_n(input, deflate_state, flush);
+        } else if !input.is_empty() {
+            return Err(io::Error::new(
+                io::ErrorKind::Interrupted,
+                "Internal buffer full.",
+            ));
+        }
+    }
+
     Ok(bytes_written)
 }
 
diff --git a/src/writer.rs b/src/writer.rs
index 8c8dbe6..461ca34 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -256,10 +256,8 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
         let flush_mode = self.deflate_state.flush_mode;
         let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
         match res {
-            // If this is returned, the whole buffer was consumed
-            Ok(0) => self.checksum.update_from_slice(buf),
-            // Otherwise, only part of it was consumed, so only that part
-            // added to the checksum.
+            // Possibly only part of the buffer was consumed, so only that part
+            // is added to the checksum.
             Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
             _ => (),
         };
@@ -437,7 +435,6 @@ pub mod gzip {
             self.check_write_header();
             let res = self.inner.write(buf);
             match res {
-                Ok(0) => self.checksum.update(buf),
                 Ok(n) => self.checksum.update(&buf[0..n]),
                 _ => (),
             };
-- 
2.43.0


From 6d900e0e2323dce25ea9419b2c13733ef4b7171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 10/12] fix: output the zlib and gzip trailer only once if
 writing it fails

The trailer was written directly to the wrapped writer, so when that failed
part way, retrying (or dropping the encoder) wrote all of it again.
---
 src/writer.rs | 53 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 461ca34..9fb238b 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -184,6 +184,7 @@ pub struct ZlibEncoder<W: Write> {
     deflate_state: DeflateState<W>,
     checksum: Adler32Checksum,
     header_written: bool,
+    trailer_written: bool,
 }
 
 impl<W: Write> ZlibEncoder<W> {
@@ -193,6 +194,7 @@ impl<W: Write> ZlibEncoder<W> {
             deflate_state: DeflateState::new(options.into(), writer),
             checksum: Adler32Checksum::new(),
             header_written: false,
+            trailer_written: false,
         }
     }
 
@@ -218,6 +220,7 @@ impl<W: Write> ZlibEncoder<W> {
     pub fn reset(&mut self, writer: W) -> io::Result<W> {
         self.output_all()?;
         self.header_written = false;
+        self.trailer_written = false;
         self.checksum = Adler32Checksum::new();
         self.deflate_state.reset(writer)
     }
@@ -233,15 +236,17 @@ impl<W: Write> ZlibEncoder<W> {
 
     /// Write the trailer, which for zlib is the Adler32 checksum.
     fn write_trailer(&mut self) -> io::Result<()> {
-        let hash = self.checksum.current_hash();
-
-        self.deflate_state
-            .inner
-            .as_mut()
-            .expect(ERR_STR)
-            .write_all(&hash.to_be_bytes())?;
+        // The trailer is put in the output buffer, so that we can keep track of what has been
+        // output if writing it fails.
+        if !self.trailer_written {
+            let hash = self.checksum.current_hash();
+            self.deflate_state
+                .output_buf()
+                .extend_from_slice(&hash.to_be_bytes());
+            self.trailer_written = true;
+        }
 
-        Ok(())
+        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
     }
 
     /// Return the adler32 checksum of the currently consumed data.
@@ -291,7 +296,7 @@ impl<W: Write> Drop for ZlibEncoder<W> {
 #[cfg(feature = "gzip")]
 pub mod gzip {
 
-    use std::io::{Cursor, Write};
+    use std::io::Write;
     use std::{io, thread};
 
     use super::*;
@@ -331,6 +336,7 @@ pub mod gzip {
         inner: DeflateEncoder<W>,
         checksum: Crc,
         header: Vec<u8>,
+        trailer_written: bool,
     }
 
     impl<W: Write> GzEncoder<W> {
@@ -351,6 +357,7 @@ pub mod gzip {
                 inner: DeflateEncoder::new(writer, options),
                 checksum: Crc::new(),
                 header: builder.into_header(),
+                trailer_written: false,
             }
         }
 
@@ -384,6 +391,7 @@ pub mod gzip {
 
         fn reset_no_header(&mut self, writer: W) -> io::Result<W> {
             self.output_all()?;
+            self.trailer_written = false;
             self.checksum = Crc::new();
             self.inner.deflate_state.reset(writer)
         }
@@ -407,21 +415,18 @@ pub mod gzip {
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
         fn write_trailer(&mut self) -> io::Result<()> {
-            let crc = self.checksum.sum();
-            let amount = self.checksum.amt_as_u32();
-
-            // We use a buffer here to make sure we don't end up writing only half the header if
-            // writing fails.
-            let mut buf = [0u8; 8];
-            let mut temp = Cursor::new(&mut buf[..]);
-            temp.write_all(&crc.to_le_bytes()).unwrap();
-            temp.write_all(&amount.to_le_bytes()).unwrap();
-            self.inner
-                .deflate_state
-                .inner
-                .as_mut()
-                .expect(ERR_STR)
-                .write_all(temp.into_inner())
+            // The trailer is put in the output buffer, so that we can keep track of what has been
+            // output if writing it fails.
+            if !self.trailer_written {
+                let crc = self.checksum.sum();
+                let amount = self.checksum.amt_as_u32();
+                let buf = self.inner.deflate_state.output_buf();
+                buf.extend_from_slice(&crc.to_le_bytes());
+                buf.extend_from_slice(&amount.to_le_bytes());
+                self.trailer_written = true;
+            }
+
+            self.inner.output_all()
         }
 
         /// Get the crc32 checksum of the data consumed so far.
-- 
2.43.0


From a802301780aabc2f21b9041fe7d7394000cdc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 11/12] fix: truncate max_hash_checks to the length of the hash
 chain

Values above 2^15 are documented to be truncated, but only lazy_if_less_than
was, so they still made a difference when checking for lazy matches.
---
 src/deflate_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deflate_state.rs b/src/deflate_state.rs
index dfa8221..738a738 100644
--- a/src/deflate_state.rs
+++ b/src/deflate_state.rs
@@ -101,7 +101,7 @@ impl<W: Write> DeflateState<W> {
         DeflateState {
             input_buffer: InputBuffer::empty(),
             lz77_state: LZ77State::new(
-                compression_options.max_hash_checks,
+                cmp::min(compression_options.max_hash_checks, MAX_HASH_CHECKS),
                 cmp::min(compression_options.lazy_if_less_than, MAX_HASH_CHECKS),
                 compression_options.matching_type,
             ),
-- 
2.43.0


From 7be69b84d65510b9b2a82b4ecd163008bb8181f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 12/12] Counters of match finding effort for verification,
 behind cfg deflate_verif

---
 src/lib.rs      |  4 ++++
 src/matching.rs |  4 ++++
 src/verif.rs    | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 56 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index cdce2cb..c5269d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,10 @@ extern crate adler32;
 #[cfg(feature = "gzip")]
 extern crate gzip_header;
 
+#[cfg(deflate_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 mod bit_reverse;
 mod bitstream;
 mod chained_hash_table;
diff --git a/src/matching.rs b/src/matching.rs
index 813f584..bcc785f 100644
--- a/src/matching.rs
+++ b/src/matching.rs
@@ -91,6 +91,8 @@ pub fn longest_match(
     prev_length: usize,
     max_hash_checks: u16,
 ) -> (usize, usize) {
+    #[cfg(deflate_verif)]
+    crate::verif::search();
     // debug_assert_eq!(position, hash_table.current_head() as usize);
 
     // If we already have a match at the maximum length,
@@ -122,6 +124,8 @@ pub fn longest_match(
     let mut prev_head;
 
     for _ in 0..max_hash_checks {
+        #[cfg(deflate_verif)]
+        crate::verif::check();
         prev_head = current_head;
         current_head = hash_table.get_prev(current_head) as usize;
         if current_head >= prev_head || current_head < limit {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..643528f
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,48 @@
+//! Counters for verification, only built with `--cfg deflate_verif`.
+use std::cell::Cell;
+
+/// The work done by the match finder.
+#[derive(Clone, Copy, Debug, Default, Eq, PartialEq)]
+pub struct Effort {
+    /// Match searches started.
+    pub searches: u64,
+    /// Earlier positions compared with in all of them.
+    pub checks: u64,
+    /// Earlier positions compared with since the last search started, and the highest such number.
+    pub current: u64,
+    pub most: u64,
+}
+
+thread_local!(static EFFORT: Cell<Effort> = Cell::new(Effort::default()));
+
+fn with<F: FnOnce(&mut Effort)>(f: F) {
+    let _ = EFFORT.try_with(|e| {
+        let mut v = e.get();
+        f(&mut v);
+        e.set(v);
+    });
+}
+
+/// A search starts.
+pub fn search() {
+    with(|e| {
+        e.searches += 1;
+        e.current = 0;
+    })
+}
+
+/// An earlier position is compared with.
+pub fn check() {
+    with(|e| {
+        e.checks += 1;
+        e.current += 1;
+        e.most = e.most.max(e.current);
+    })
+}
+
+/// The work done by the current thread since the last call.
+pub fn take() -> Effort {
+    let mut r = Effort::default();
+    with(|e| r = std::mem::replace(e, Effort::default()));
+    r
+}
-- 
2.43.0

