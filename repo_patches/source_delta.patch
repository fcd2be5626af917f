From 2f0c50054b3bac2938b522e24ec46f0a5a97bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 01/11] fix: write the zlib/gzip header when flush() is the
 first call

flush() on a fresh (or freshly reset) ZlibEncoder/GzEncoder emitted the sync
block without the header; the header then ended up in the middle of the stream.
---
 src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 1888a11..7273a29 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -272,6 +272,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
     /// This essentially finishes the current block, and sends an additional empty stored block to
     /// the writer.
     fn flush(&mut self) -> io::Result<()> {
+        self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
     }
 }
@@ -449,6 +450,7 @@ pub mod gzip {
         /// This essentially finishes the current block, and sends an additional empty stored
         /// block to the writer.
         fn flush(&mut self) -> io::Result<()> {
+            self.check_write_header();
             self.inner.flush()
         }
     }
-- 
2.43.0


From 75385840072198709145a741fe6a25119f56e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 02/11] fix: only add consumed bytes to the zlib/gzip checksum

Ok(0) from the compressor means nothing was consumed (e.g. when a previous flush
or reset failed part way), not that the whole buffer was, so the trailer ended
up covering data that is not in the stream.
---
 src/writer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 7273a29..1ff3615 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -256,10 +256,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
         let flush_mode = self.deflate_state.flush_mode;
         let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
         match res {
-            // If this is returned, the whole buffer was consumed
-            Ok(0) => self.checksum.update_from_slice(buf),
-            // Otherwise, only part of it was consumed, so only that part
-            // added to the checksum.
+            // Only the part of the buffer that was consumed is added to the checksum.
             Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
             _ => (),
         };
@@ -437,7 +434,6 @@ pub mod gzip {
             self.check_write_header();
             let res = self.inner.write(buf);
             match res {
-                Ok(0) => self.checksum.update(buf),
                 Ok(n) => self.checksum.update(&buf[0..n]),
                 _ => (),
             };
-- 
2.43.0


From d96e11af17f16f54ad292da4b6bea6d60f6ff6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:29 +0000
Subject: [PATCH 03/11] fix: do not queue a second gzip header when reset fails

If finishing the stream failed, the encoder still holds the old stream; queueing
the new header at that point put it inside the old stream.
---
 src/writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 1ff3615..5421be0 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -390,18 +390,18 @@ pub mod gzip {
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one. (Using a blank header).
         pub fn reset(&mut self, writer: W) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = GzBuilder::new().into_header();
-            w
+            Ok(w)
         }
 
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one, and using the provided `GzBuilder` to
         /// create the header.
         pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = builder.into_header();
-            w
+            Ok(w)
         }
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
-- 
2.43.0


From f295c3c674c72e066f66a89e63c12fc025bac0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 04/11] fix: do not report an error from write() after
 consuming input

If the wrapped writer failed after part of the buffer had been taken, write()
returned the error, and callers retrying (e.g. write_all on Interrupted) passed
in the same data again, duplicating it in the stream.
---
 src/compress.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 8223609..895f488 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -94,11 +94,20 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
-            let written = deflate_state
+            let res = deflate_state
                 .inner
                 .as_mut()
                 .expect("Missing writer!")
-                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..]);
+
+            let written = match res {
+                Ok(n) => n,
+                // Some of the input has already been consumed in this call, which can't be
+                // reported together with an error. The output is still buffered, so the error
+                // will be hit again in the next call if it persists.
+                Err(_) if bytes_written > 0 => return Ok(bytes_written),
+                Err(e) => return Err(e),
+            };
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
-- 
2.43.0


From 5c69404e37c055b108a8c96da9bb2487fe5d1140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 05/11] fix: report WriteZero instead of retrying forever

A wrapped writer that stops accepting data (returns Ok(0), such as a full
&mut [u8]) made finish(), flush(), reset(), write_all() and drop loop forever.
---
 src/compress.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index 895f488..6bda322 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -101,6 +101,9 @@ pub fn compress_data_dynamic_n<W: Write>(
                 .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..]);
 
             let written = match res {
+                // Nothing can be output any more, so returning `Interrupted` below would make
+                // callers retry forever.
+                Ok(0) if bytes_written == 0 => return Err(io::ErrorKind::WriteZero.into()),
                 Ok(n) => n,
                 // Some of the input has already been consumed in this call, which can't be
                 // reported together with an error. The output is still buffered, so the error
@@ -292,6 +295,10 @@ pub fn compress_data_dynamic_n<W: Write>(
         .as_mut()
         .expect("Missing writer!")
         .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+    if written_to_writer == 0 && deflate_state.output_buf().len() > output_buf_pos {
+        // The writer doesn't accept any more data, so retrying would never end.
+        return Err(io::ErrorKind::WriteZero.into());
+    }
     if written_to_writer
         < deflate_state
             .output_buf()
-- 
2.43.0


From c73538ddfdb2f46ba317fcb057d4b8236cd8edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 06/11] fix: write() after an unfinished flush() no longer
 returns Ok(0)

write() only completed the pending flush in that case and returned Ok(0), which
made write_all() fail with WriteZero though the writer was accepting data.
---
 src/compress.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index 6bda322..0b758fb 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -314,6 +314,15 @@ pub fn compress_data_dynamic_n<W: Write>(
         deflate_state.needs_flush = false;
     }
 
+    if bytes_written == 0 && !input.is_empty() && !deflate_state.lz77_state.is_last_block() {
+        // We only output data pending from an earlier flush. As with a full buffer above, this
+        // has to be returned rather than Ok(0) to indicate that we are not done yet.
+        return Err(io::Error::new(
+            io::ErrorKind::Interrupted,
+            "Pending flush completed.",
+        ));
+    }
+
     Ok(bytes_written)
 }
 
-- 
2.43.0


From 72cb425f817717aba6b9cd879c756ac367ec2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 07/11] fix: actually reset the prev hash chain table

Arrays are Copy, so reset() filled a temporary copy of the table, and a reset
encoder kept the hash chains of the previous stream.
---
 src/chained_hash_table.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 61c3fa2..fbe496c 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -98,11 +98,7 @@ impl ChainedHashTable {
     pub fn reset(&mut self) {
         self.current_hash = 0;
         reset_array(&mut self.c.head);
-        {
-            let h = self.c.head;
-            let mut c = self.c.prev;
-            c[..].copy_from_slice(&h[..]);
-        }
+        self.c.fill_prev();
         /*if cfg!(debug_assertions) {
             self.count.reset();
         }*/
-- 
2.43.0


From bc072b2f0e9087ad64b3495243df287fbfc414e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 08/11] fix: account for the slide in the position of a block
 ending in the lookahead

When the output buffer became full on a match extending past the window, the
input buffer was slid before returning the old position, so a stored block
contained the wrong bytes.
---
 src/lz77.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 49c712e..6dea79a 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -672,6 +672,8 @@ pub fn lz77_compress_block(
                 state.current_block_input_bytes +=
                     (written - start + pending_previous - state.pending_byte_as_num()) as u64;
 
+                current_position = written - state.pending_byte_as_num();
+
                 // If the buffer is full, return and end the block.
                 // If overlap is non-zero, the buffer was full after outputting the last byte,
                 // otherwise we have to skip to the point in the buffer where we stopped in the
@@ -684,6 +686,8 @@ pub fn lz77_compress_block(
                             state.hash_table.slide(window_size);
                         }
                         remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
+                        // The data of the block was moved too.
+                        current_position -= window_size;
                     } else {
                         state.is_first_window = false;
                     }
@@ -692,8 +696,6 @@ pub fn lz77_compress_block(
                     written - window_start
                 };
 
-                current_position = written - state.pending_byte_as_num();
-
                 // Status is already EndBlock at this point.
                 // status = LZ77Status::EndBlock;
                 break;
-- 
2.43.0


From 30778933cc24f662946feab953a8c31f0e9f0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:55 +0000
Subject: [PATCH 09/11] fix: count the overlapping byte when the last match
 fills the buffer

If a match at the end of the data extended one byte past the window and filled
the buffer, the reported position was one too low, and a stored block would
miss that byte.
---
 src/lz77.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 6dea79a..642f81a 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -461,7 +461,7 @@ fn process_chunk_lazy(
                 if let BufferStatus::Full = b_status {
                     // TODO: These bytes should be hashed when doing a sync flush.
                     // This can't be done here as the new input data does not exist yet.
-                    return (overlap, buffer_full(end));
+                    return (overlap, buffer_full(position + prev_length as usize - 1));
                 } else {
                     return (overlap, ProcessStatus::Ok);
                 }
-- 
2.43.0


From 7c52889c02ecec722bd602910fa3bba86011c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 10/11] fix: finish the stream when an unfinished flush is
 pending

When flush() had failed after queueing its sync block, finish(), reset() and
drop only delivered the pending output and then returned Ok without ever
writing the final block.
---
 src/compress.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compress.rs b/src/compress.rs
index 0b758fb..5b6730f 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -314,7 +314,10 @@ pub fn compress_data_dynamic_n<W: Write>(
         deflate_state.needs_flush = false;
     }
 
-    if bytes_written == 0 && !input.is_empty() && !deflate_state.lz77_state.is_last_block() {
+    if bytes_written == 0
+        && (!input.is_empty() || flush == Flush::Finish)
+        && !deflate_state.lz77_state.is_last_block()
+    {
         // We only output data pending from an earlier flush. As with a full buffer above, this
         // has to be returned rather than Ok(0) to indicate that we are not done yet.
         return Err(io::Error::new(
-- 
2.43.0


From 72fc7b405c9d2319333cdabaaec23792210ebe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 11/11] fix: do not repeat the trailer when finishing is
 retried

A reset (or a finish followed by the retry in drop) whose trailer was only
partly accepted wrote the whole trailer again. Put it in the output buffer
once, so that a retry continues where the last attempt stopped.
---
 src/writer.rs | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5421be0..7e1c49b 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -184,6 +184,7 @@ pub struct ZlibEncoder<W: Write> {
     deflate_state: DeflateState<W>,
     checksum: Adler32Checksum,
     header_written: bool,
+    trailer_written: bool,
 }
 
 impl<W: Write> ZlibEncoder<W> {
@@ -193,6 +194,7 @@ impl<W: Write> ZlibEncoder<W> {
             deflate_state: DeflateState::new(options.into(), writer),
             checksum: Adler32Checksum::new(),
             header_written: false,
+            trailer_written: false,
         }
     }
 
@@ -201,7 +203,8 @@ impl<W: Write> ZlibEncoder<W> {
     fn output_all(&mut self) -> io::Result<()> {
         self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Finish)?;
-        self.write_trailer()
+        self.write_trailer()?;
+        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
     }
 
     /// Encode all pending data to the contained writer, consume this `ZlibEncoder`,
@@ -218,6 +221,7 @@ impl<W: Write> ZlibEncoder<W> {
     pub fn reset(&mut self, writer: W) -> io::Result<W> {
         self.output_all()?;
         self.header_written = false;
+        self.trailer_written = false;
         self.checksum = Adler32Checksum::new();
         self.deflate_state.reset(writer)
     }
@@ -231,15 +235,17 @@ impl<W: Write> ZlibEncoder<W> {
         Ok(())
     }
 
-    /// Write the trailer, which for zlib is the Adler32 checksum.
+    /// Write the trailer, which for zlib is the Adler32 checksum, to the output buffer if it
+    /// hasn't been done yet.
     fn write_trailer(&mut self) -> io::Result<()> {
-        let hash = self.checksum.current_hash();
+        if !self.trailer_written {
+            let hash = self.checksum.current_hash();
 
-        self.deflate_state
-            .inner
-            .as_mut()
-            .expect(ERR_STR)
-            .write_all(&hash.to_be_bytes())?;
+            self.deflate_state
+                .output_buf()
+                .write_all(&hash.to_be_bytes())?;
+            self.trailer_written = true;
+        }
 
         Ok(())
     }
@@ -330,6 +336,7 @@ pub mod gzip {
         inner: DeflateEncoder<W>,
         checksum: Crc,
         header: Vec<u8>,
+        trailer_written: bool,
     }
 
     impl<W: Write> GzEncoder<W> {
@@ -350,6 +357,7 @@ pub mod gzip {
                 inner: DeflateEncoder::new(writer, options),
                 checksum: Crc::new(),
                 header: builder.into_header(),
+                trailer_written: false,
             }
         }
 
@@ -369,7 +377,8 @@ pub mod gzip {
         fn output_all(&mut self) -> io::Result<()> {
             self.check_write_header();
             self.inner.output_all()?;
-            self.write_trailer()
+            self.write_trailer()?;
+            self.inner.output_all()
         }
 
         /// Encode all pending data to the contained writer, consume this `GzEncoder`,
@@ -384,6 +393,7 @@ pub mod gzip {
         fn reset_no_header(&mut self, writer: W) -> io::Result<W> {
             self.output_all()?;
             self.checksum = Crc::new();
+            self.trailer_written = false;
             self.inner.deflate_state.reset(writer)
         }
 
@@ -404,8 +414,13 @@ pub mod gzip {
             Ok(w)
         }
 
-        /// Write the checksum and number of bytes mod 2^32 to the output writer.
+        /// Write the checksum and number of bytes mod 2^32 to the output buffer if it hasn't
+        /// been done yet.
         fn write_trailer(&mut self) -> io::Result<()> {
+            if self.trailer_written {
+                return Ok(());
+            }
+
             let crc = self.checksum.sum();
             let amount = self.checksum.amt_as_u32();
 
@@ -417,10 +432,11 @@ pub mod gzip {
             temp.write_all(&amount.to_le_bytes()).unwrap();
             self.inner
                 .deflate_state
-                .inner
-                .as_mut()
-                .expect(ERR_STR)
-                .write_all(temp.into_inner())
+                .output_buf()
+                .write_all(temp.into_inner())?;
+            self.trailer_written = true;
+
+            Ok(())
         }
 
         /// Get the crc32 checksum of the data consumed so far.
-- 
2.43.0

