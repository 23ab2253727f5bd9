From 4b1f3c89430e5a362f5190377408e36a986ec014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 01/33] fix: bound the source hash update when a match ends
 near the end of the target

After a match that ended 5 to 8 bytes before the end of the target the
encoder read up to four bytes past the end and panicked.
---
 smdiff-encoder/src/encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 2828885..314c838 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -186,14 +186,16 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                         add_start_positions_to_matcher(matcher, cur_o_pos, src)
                     }
                     if matcher.fwd_pos < matcher.max_fwd_hash_pos{
-                        if matcher.fwd_pos + 9 > cur_o_pos{
+                        if cur_o_pos > matcher.max_fwd_hash_pos{
+                            //less than a full hash window remains, there is nothing left to hash.
+                        }else if matcher.fwd_pos + 9 > cur_o_pos{
                             for old_pos in matcher.fwd_pos..cur_o_pos{
                                 matcher.fwd_hash = update_large_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+9]);
                             }
                         }else{
                             matcher.fwd_hash = calculate_large_checksum(&trgt[cur_o_pos..cur_o_pos+9]);
                         }
-                        matcher.fwd_pos = cur_o_pos;
+                        matcher.fwd_pos = matcher.max_fwd_hash_pos.min(cur_o_pos);
                     }
                 };
                 if let Some(matcher) = trgt_matcher.as_mut(){
-- 
2.43.0


From 12a7fc57e16afe4dc9641c9d74cb204390e16ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 02/33] fix: stop the target matcher's prefill at the last
 hashable position

The prefill hashed up to the start position itself, reading past the end of
the target when the naive test left less than five bytes, and stored the start
position a second time, which linked it to itself in the chain.
---
 smdiff-encoder/src/trgt_matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 222e6ec..e3f5f65 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -168,12 +168,12 @@ impl TrgtMatcherConfig {
         };
         if trgt_start_pos > 0 { //prefill with hash start positions.
             let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
-            let end = trgt_start_pos;
+            //`trgt_start_pos` itself is stored by the encoder once it moves past it.
+            let end = trgt_start_pos.min(matcher.max_fwd_hash_pos);
             let mut hash = calculate_small_checksum(&trgt[start..]);
-            matcher.store(hash as usize, start);
             for old_pos in start..end{
+                matcher.store(hash as usize, old_pos);
                 hash = update_small_checksum_fwd(hash, trgt[old_pos], trgt[old_pos + 4]);
-                matcher.store(hash as usize, old_pos + 1);
             }
         }
         matcher
-- 
2.43.0


From 9a1865e2a3b2143e9080d5091c3340ded1317fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 03/33] fix: seed the target matcher's rolling hash with the
 first window

The rolling hash started from zero, so until some other match skipped four or
more bytes every hash was wrong and no repetition within the target was found.
---
 smdiff-encoder/src/trgt_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index e3f5f65..9659b19 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -160,7 +160,7 @@ impl TrgtMatcherConfig {
         let mut matcher = TrgtMatcher{
             compress_early_exit: *compress_early_exit,
             chain_check: *chain_check,
-            fwd_hash: 0,
+            fwd_hash: calculate_small_checksum(&trgt[trgt_start_pos..]),
             fwd_pos: trgt_start_pos,
             table,
             chain: ChainList::new(self.prev_table_capacity.unwrap()),
-- 
2.43.0


From 05d995f250a20d950905d9b10e0eb6a608041547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 04/33] fix: accept any target chain capacity

A prev_table_capacity that is not a power of two made the encoder panic.
---
 smdiff-encoder/src/trgt_matcher.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 9659b19..eeec55a 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -156,6 +156,8 @@ impl TrgtMatcherConfig {
         //     }));
         prev_table_capacity.get_or_insert(DEFAULT_PREV_SIZE.min(effective_len.next_power_of_two()>>1));
         //let table = BasicHashTable::new(DEFAULT_TRGT_WIN_SIZE.min((effective_len + (effective_len/2)).next_power_of_two() >> 1), self.prev_table_capacity.unwrap(),if *win_size>4{8}else{4});
+        //the chain is a ring buffer, its size must be a power of two (or 0 to disable it)
+        let prev_capacity = match self.prev_table_capacity.unwrap(){0 => 0, n => n.next_power_of_two()};
         let table = BasicHashTable::new(DEFAULT_TRGT_WIN_SIZE.min((effective_len + (effective_len/2)).next_power_of_two() >> 1), true);
         let mut matcher = TrgtMatcher{
             compress_early_exit: *compress_early_exit,
@@ -163,11 +165,11 @@ impl TrgtMatcherConfig {
             fwd_hash: calculate_small_checksum(&trgt[trgt_start_pos..]),
             fwd_pos: trgt_start_pos,
             table,
-            chain: ChainList::new(self.prev_table_capacity.unwrap()),
+            chain: ChainList::new(prev_capacity),
             max_fwd_hash_pos: trgt.len().saturating_sub(4),
         };
         if trgt_start_pos > 0 { //prefill with hash start positions.
-            let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
+            let start = trgt_start_pos.saturating_sub(prev_capacity);
             //`trgt_start_pos` itself is stored by the encoder once it moves past it.
             let end = trgt_start_pos.min(matcher.max_fwd_hash_pos);
             let mut hash = calculate_small_checksum(&trgt[start..]);
-- 
2.43.0


From e61c0196a55cafdd5651e2799079e4c6b6ffe91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 05/33] fix: refuse variable-length integers that do not fit in
 64 bits

Continuation bytes past the tenth shifted by more than 63 bits, which panics
in debug builds and yields a wrong value in release builds.
---
 smdiff-common/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index e04aa51..3bad4ed 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -256,6 +256,10 @@ pub fn read_u_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u64> {
     loop {
         reader.read_exact(&mut b)?;
         let byte = b[0];
+        //the tenth byte can only hold the top bit of a u64, and must be the last.
+        if shift == 63 && byte > 1 {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "u-varint does not fit in 64 bits"));
+        }
         result |= ((byte & 0x7F) as u64) << shift;
         if byte & 0x80 == 0 {
             break;
-- 
2.43.0


From 48ce451d010ff8c290b223c502cbe75f8e8bb55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 06/33] fix: make address differences exact for the whole
 64-bit range

A difference of i64::MIN, read from a patch or taken between addresses 2^63
apart, overflowed and panicked in debug builds.
---
 smdiff-common/src/lib.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index 3bad4ed..a1bf7f2 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -318,24 +318,15 @@ pub fn u_varint_encode_size(n: u64) -> usize {
 /// Helper fn to 'decode' a copy address from an i64 to the actual absolute address.
 #[inline]
 pub fn diff_addresses_to_u64(cur: u64, input: i64) -> u64 {
-    if input >= 0 {
-        // Safe to convert i64 to u64 because i is non-negative
-        cur.wrapping_add(input as u64)
-    } else {
-        // i is negative, so convert the absolute value to u64 and subtract
-        let positive_i = input.abs() as u64; // This is safe because `abs()` of a negative i64 can always fit in u64
-        cur.wrapping_sub(positive_i)
-    }
+    // Two's complement: this adds a non-negative and subtracts a negative difference.
+    cur.wrapping_add(input as u64)
 }
 
 /// Helper fn to 'encode' a copy address from an absolute position (u64) to the relative difference from the last used absolute address.
 #[inline]
 pub fn diff_addresses_to_i64(cur: u64, target: u64) -> i64 {
-    if target > cur {
-        (target - cur) as i64
-    } else {
-        (cur - target) as i64 * -1
-    }
+    // Differences of 2^63 or more wrap around, `diff_addresses_to_u64` wraps them back.
+    target.wrapping_sub(cur) as i64
 }
 
 #[cfg(test)]
-- 
2.43.0


From d01cf973e0309b5b9940adcdc3b2588627237025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 07/33] fix: refuse section headers whose values are out of
 range

Header integers were truncated to 32 bits, the sum of the add bytes and the
remaining output could overflow, and a section could claim more output than
MAX_WIN_SIZE.
---
 smdiff-reader/src/lib.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2cbe7d1..738b11b 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 use std::io::Read;
 
-use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, MAX_WIN_SIZE, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Op Type alias for the Readers Add type
@@ -37,18 +37,16 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     let compression_algo = (header_byte & SECTION_COMPRESSION_MASK) >> SECTION_COMPRESSION_RSHIFT;
     let format = if header_byte & SECTION_FORMAT_BIT == SECTION_FORMAT_BIT{Format::Segregated} else {Format::Interleaved};
     let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;
-    let num_operations = read_u_varint(reader)? as u32;
+    let num_operations = read_header_u32(reader)?;
     let num_add_bytes = if format.is_segregated() {
-        read_u_varint(reader)? as u32
+        read_header_u32(reader)?
     } else {
         0
     };
-    let read_size = read_u_varint(reader)? as u32;
-    let output_size = if format.is_segregated(){
-        num_add_bytes + read_size
-    }else{
-        read_size
-    };
+    let read_size = read_header_u32(reader)?;
+    //num_add_bytes is 0 for interleaved
+    let output_size = num_add_bytes.checked_add(read_size).filter(|s| *s as usize <= MAX_WIN_SIZE)
+        .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section output size exceeds MAX_WIN_SIZE"))?;
 
     Ok(SectionHeader {
         compression_algo,
@@ -60,6 +58,11 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     })
 }
 
+fn read_header_u32<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
+    u32::try_from(read_u_varint(reader)?)
+        .map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section header value does not fit in 32 bits"))
+}
+
 /// Reads the operations from the reader at the current position. Cannot have secondary compression still applied.
 ///
 /// The mutable reference to the section header is so that the
-- 
2.43.0


From 99acc18061033b7adaaf106e7080d2ef1677d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 08/33] fix: check and report a section's number of add bytes

Reading a segregated section returned twice the number of add bytes, an
interleaved one none, and a header that disagreed with the operations was
accepted.
---
 smdiff-reader/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 738b11b..3381c05 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -69,7 +69,8 @@ fn read_header_u32<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
 /// function can update the number of add bytes in the event the format is interleaved.
 /// This way the header reflects reality regardless of if it was originally encoded in the header.
 pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHeader,op_buffer:&mut Vec<Op>)-> std::io::Result<()>{
-    let SectionHeader { format, num_operations, output_size, .. } = header;
+    let SectionHeader { format, num_operations, output_size, num_add_bytes, .. } = header;
+    let mut total_add_bytes = 0u32;
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
@@ -85,7 +86,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let len = op.oal() as u32;
                 check_size += len;
                 if op.is_add(){
-                    header.num_add_bytes += len;
+                    total_add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
                 }
                 op_buffer.push(op);
@@ -93,6 +94,9 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             if &check_size != output_size{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            if &total_add_bytes != num_add_bytes{
+                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header add bytes: {} != Sum(add ops) {}",num_add_bytes,total_add_bytes)));
+            }
             //reader should be at the end of the instructions
             //now we go back and fill the add op buffers
             for i in add_idxs{
@@ -107,9 +111,14 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             let mut check_size = 0;
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
-                check_size += op.oal() as u32;
+                let len = op.oal() as u32;
+                check_size += len;
+                if op.is_add(){
+                    total_add_bytes += len;
+                }
                 op_buffer.push(op);
             }
+            *num_add_bytes = total_add_bytes;
             if &check_size != output_size{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
-- 
2.43.0


From 7b9281dcbe03b0d8c444834bcd7ce5b544b2c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 09/33] fix: do not allocate memory for operations that a
 header merely claims

Reading a section reserved space for every claimed operation, several GiB for
a header of a few bytes, and segregated Add operations allocated their bytes
without regard to the section's output size.
---
 smdiff-reader/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 3381c05..85ab811 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -58,6 +58,15 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     })
 }
 
+/// Upper bound of how many ops we reserve space for up front.
+const MAX_OP_RESERVE: usize = 1 << 12;
+
+/// Adds the size of an op to the running total, as soon as it exceeds the output size of the header we fail.
+fn add_op_size(total: u32, op_size: u32, output_size: u32) -> std::io::Result<u32> {
+    total.checked_add(op_size).filter(|t| *t <= output_size)
+        .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} < Sum(ops.oal())",output_size)))
+}
+
 fn read_header_u32<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
     u32::try_from(read_u_varint(reader)?)
         .map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section header value does not fit in 32 bits"))
@@ -74,7 +83,8 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
-    op_buffer.reserve(*num_operations as usize);
+    //an untrusted count must not make us reserve memory for data that might not be there
+    op_buffer.reserve((*num_operations as usize).min(MAX_OP_RESERVE));
     match format {
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
@@ -84,7 +94,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             for i in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
                 let len = op.oal() as u32;
-                check_size += len;
+                check_size = add_op_size(check_size, len, *output_size)?;
                 if op.is_add(){
                     total_add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
@@ -112,7 +122,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
                 let len = op.oal() as u32;
-                check_size += len;
+                check_size = add_op_size(check_size, len, *output_size)?;
                 if op.is_add(){
                     total_add_bytes += len;
                 }
@@ -132,7 +142,6 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
 /// This is just a wrapper that completely reads a section from the reader.
 pub fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> std::io::Result<SectionHeader> {
     let mut header = read_section_header(reader)?;
-    op_buffer.reserve(header.num_operations as usize);
     read_ops_no_comp(reader, &mut header, op_buffer)?;
     Ok(header)
 }
-- 
2.43.0


From 5f27dd5bc50ad185f5594f808102f3dd3adda660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 10/33] fix: report a bad zstd frame as an error

A compressed section that does not start with a valid zstd frame panicked.
---
 smdiff-decoder/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index cb4ee30..3bb0de0 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -73,7 +73,8 @@ impl<R: Read+Seek> SectionIterator<R>{
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
-            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source).unwrap();
+            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
-- 
2.43.0


From 40c92cd7eb7b7365d59ca90445936882a60dba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 11/33] fix: refuse sections with an unknown compression
 algorithm

They were read as if they were not compressed.
---
 smdiff-decoder/src/reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 3bb0de0..eb534a6 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -1,6 +1,6 @@
 //! This module contains the `SectionReader` struct, which is used to read sections from a smdiff delta file.
 //! This is just like the `SectionIterator` struct from the `smdiff-reader` crate, but this can read sections that have secondary compression.
-use std::io::{BufReader, Cursor, Read, Seek};
+use std::io::{BufReader, Cursor, Error, ErrorKind, Read, Seek};
 
 use smdiff_common::SectionHeader;
 use smdiff_reader::{read_ops_no_comp, read_section_header, Op};
@@ -74,14 +74,16 @@ impl<R: Read+Seek> SectionIterator<R>{
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
-                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
+                .map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
             let _ = brot.into_inner()?;
-        }else{
+        }else if header.compression_algo == 0 {
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
+        }else{
+            return Err(Error::new(ErrorKind::InvalidData, format!("Unknown compression algorithm: {}",header.compression_algo)));
         }
         if !header.more_sections{
             self.done = true;
-- 
2.43.0


From bb8125d2313dd239e66b1e3f63f472c66bc5cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 12/33] fix: read compressed sections to the end of their
 stream

Only the bytes of the operations were pulled out of the decompressor. A brotli
section without operations (the patch of an empty target) could not be applied,
a zstd frame that ends with an empty block left the reader in front of that
block, and data after the last operation was ignored.
---
 smdiff-decoder/src/reader.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index eb534a6..1a9ec91 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -72,13 +72,16 @@ impl<R: Read+Seek> SectionIterator<R>{
             apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr)?;
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
+            expect_end(&mut crsr)?;
         }else if header.compression_algo == 2 {
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
                 .map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
+            expect_end(&mut zstd)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
+            expect_end(&mut brot)?;
             let _ = brot.into_inner()?;
         }else if header.compression_algo == 0 {
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
@@ -95,6 +98,21 @@ impl<R: Read+Seek> SectionIterator<R>{
     }
 }
 
+/// The ops must be all there is in the decompressed section.
+/// Reading to the end also leaves the underlying reader at the start of the next section,
+/// a compressed stream can end with a part that holds no data.
+fn expect_end<R: Read>(reader: &mut R) -> std::io::Result<()>{
+    let mut buf = [0u8;1];
+    loop {
+        match reader.read(&mut buf) {
+            Ok(0) => return Ok(()),
+            Ok(_) => return Err(Error::new(ErrorKind::InvalidData, "Data found after the last operation of a compressed section")),
+            Err(e) if e.kind() == ErrorKind::Interrupted => {},
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 impl<R: Read+Seek> Iterator for SectionIterator<R> {
     type Item = std::io::Result<(Vec<Op>, SectionHeader)>;
 
-- 
2.43.0


From 398379abaac71279ea79fbbf238600b997bea08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 13/33] fix: report a source copy without a source as an error

It panicked, and so could a compressed section of a malformed patch.
---
 smdiff-decoder/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 6141ec4..556d8a7 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -67,7 +67,7 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     smdiff_common::CopySrc::Dict => {
                         let src = match src.as_mut(){
                             Some(s) => s,
-                            None => panic!("Copy operation without source data"),
+                            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Copy operation without source data")),
                         };
                         src.seek(std::io::SeekFrom::Start(copy.addr))?;
                         let len = copy.len as usize;
-- 
2.43.0


From 9b729c832e0391efa52564be4c42aa7d1147bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 14/33] fix: refuse copies of output that is not written yet

When the sink held older data past the current position a copy that reaches
past the output so far silently used that data.
---
 smdiff-decoder/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 556d8a7..465e2cd 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -77,8 +77,12 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     },
                     smdiff_common::CopySrc::Output => {
                         let start_pos = *cur_o_pos;
-                        cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;
                         let len = copy.len as usize;
+                        //the sink might already hold other data past our position.
+                        if copy.addr.checked_add(len as u64).filter(|end| *end <= start_pos as u64).is_none(){
+                            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation from output that is not yet written"));
+                        }
+                        cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;
                         cur_o.read_exact(&mut copy_buffer[..len])?;
                         cur_o.seek(std::io::SeekFrom::Start(start_pos as u64))?;
                         cur_o.write_all(&copy_buffer[..len])?;
-- 
2.43.0


From 19a7555c17573e5420e6d8682f5659e49793f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 15/33] fix: refuse zero length operations

The format does not allow them, and a merge of a patch that contains one
panicked.
---
 smdiff-reader/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 85ab811..87bb2e5 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -189,6 +189,9 @@ pub fn read_op<R: std::io::Read>(reader: &mut R,cur_d_addr:&mut u64,cur_o_addr:&
         Size::U8And62 => read_u8(reader)? as u16 + 62,
         Size::U16 => read_u16(reader)?,
     };
+    if size == 0 {//the spec does not allow these
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Zero length operation"));
+    }
     let op = match op {
         OpType::Copy { src } => {
             let addr = read_i_varint(reader)?;
-- 
2.43.0


From 10cf6b8f269248fafa8ca89de19fc593ccb6c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 16/33] fix: count each copy once in the patch statistics

Every copy was counted a second time as a copy from the source, so the output
size was wrong for any patch with a copy.
---
 smdiff-merger/src/lib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ec50168..b45d1b2 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -196,8 +196,6 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                         },
                     }
                     output.push((o_pos_start,inst));
-                    stats.copy_d(oal_len);
-
                 },
                 smdiff_common::Op::Add(_) => {
                     output.push((o_pos_start,inst));
-- 
2.43.0


From 77aa8c14ba1502104948b86b4cbe2ea3e0c09870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 17/33] fix: refuse to extract patches that copy output that is
 not written yet

Resolving such a copy panicked.
---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index b45d1b2..7f438bc 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -192,6 +192,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
+                            if c.addr.checked_add(c.len as u64).filter(|end| *end <= o_pos_start).is_none(){
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation from output that is not yet written"));
+                            }
                             stats.copy_o(oal_len);
                         },
                     }
-- 
2.43.0


From 175fd7ab27d8098b875d5d64f98b8979f993d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 18/33] fix: report a predecessor that does not fit as an error

Merging a patch whose output is shorter than what the later patches copy from
panicked.
---
 smdiff-merger/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 7f438bc..3b1b6d4 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -319,7 +319,8 @@ impl Merger {
             //this a src window copy that we need to resolve from the predecessor patch.
             debug_assert!(matches!(copy.src, smdiff_common::CopySrc::Dict));
             let o_start = copy.addr; //ssp is o_pos, u is offset from that.
-            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32).unwrap();
+            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32)
+                .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation exceeds the output of the predecessor patch"))?;
             //debug_assert_eq!(sum_len_in_o(&resolved), copy.len_in_o() as u64, "resolved: {:?} copy: {:?}",resolved,copy);
             find_mergeable_copies(&resolved, i+shift, &mut terminal_copy_indices);
             shift += resolved.len() - 1;
-- 
2.43.0


From b6a0bb680960bddac591785918e68edca9a618ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 19/33] fix: return a summary patch when a terminal patch only
 copies its own output

Such a patch needs no source and nothing can be merged into it, it panicked in
debug builds and returned a Merger in release builds.
---
 smdiff-merger/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 3b1b6d4..ad1185a 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -275,7 +275,7 @@ impl Merger {
     /// If the terminal summary patch has even a single Copy instructions, a Merger is returned.
     pub fn new<R:Read + Seek>(terminal_patch:R) -> std::io::Result<Result<Merger,SummaryPatch>> {
         let (terminal_patch,stats) = extract_patch_instructions(terminal_patch)?;
-        if stats.copy_bytes == 0{
+        if !stats.has_copy(){
             return Ok(Err(SummaryPatch(terminal_patch.into_iter().map(|s|s.1).collect())));
         }
         let mut terminal_copy_indices = Vec::new();
@@ -283,7 +283,9 @@ impl Merger {
         //will need to check this.
         let terminal_patch = deref_copy_o(terminal_patch);
         find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
-        debug_assert!(!terminal_copy_indices.is_empty(), "terminal_copy_indices should not be empty");
+        if terminal_copy_indices.is_empty(){//it only had copies from its own output.
+            return Ok(Err(SummaryPatch(terminal_patch.into_iter().map(|s|s.1).collect())));
+        }
         Ok(Ok(Merger{
             terminal_patch,
             terminal_copy_indices,
-- 
2.43.0


From c266af7eb689eec3be819a6096c48520a6e08110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 20/33] fix: transcode patches without operations

Transcoding the patch of an empty file underflowed and panicked.
---
 smdiff-merger/src/transcoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index de2c759..561a65e 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -84,7 +84,7 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
             if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
@@ -98,7 +98,7 @@ fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
             if byte1 == byte2 {
-- 
2.43.0


From fc90a49e81c0999b69ff1ff471543f04703554e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 21/33] fix: refuse to write headers that cannot be represented

More add bytes than output underflowed, and a compression algorithm above 7
spilled into the format and continuation bits.
---
 smdiff-writer/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 5bd9944..8dc4e23 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -8,6 +8,9 @@ use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u
 /// * `header` - The header to write.
 /// * `writer` - The writer to write to.
 pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&mut W) -> std::io::Result<()> {
+    if header.compression_algo > 7 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compression algorithm is greater than 7"));
+    }
     let mut cntl_byte = header.compression_algo << SECTION_COMPRESSION_RSHIFT;
     if let Format::Segregated = header.format {
         cntl_byte |= SECTION_FORMAT_BIT;  // Set format bit
@@ -19,7 +22,8 @@ pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&m
     write_u_varint(writer, header.num_operations as u64)?;
     let output_size = if header.format == Format::Segregated {
         write_u_varint(writer, header.num_add_bytes as u64)?;
-        header.output_size - header.num_add_bytes
+        header.output_size.checked_sub(header.num_add_bytes)
+            .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Number of add bytes is greater than the output size"))?
     } else {
         header.output_size
     };
-- 
2.43.0


From 889ac3d4459be761c75edff8be310baa797a866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 22/33] fix: refuse to write operations of an illegal size

The length of an Add of more than 65535 bytes was truncated, which silently
produced a corrupt patch, and a Run of more than 62 bytes panicked.
---
 smdiff-writer/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 8dc4e23..a9605fa 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -1,7 +1,7 @@
 //! This lib is used to *construct* valid SMDIFF format delta files.
 //! This is *not* an encoder.
 //! However, if you did write an encoder this would help you write the ops to a file.
-use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Used to write the header to the section.
@@ -48,6 +48,7 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
     let mut add_bytes_written = 0;
     let mut add_bytes_slices = Vec::new();
     for op in ops {
+        check_op_size(op)?;
         total_content_len += op.oal() as usize;
         write_op_byte_and_size(writer, &op)?;
         match header.format{
@@ -79,6 +80,19 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
 }
 
 
+/// Only operations with a legal size can be represented.
+fn check_op_size<A:AddOp>(op: &Op<A>) -> std::io::Result<()> {
+    let (size,max) = match op {
+        Op::Add(add) => (add.bytes().len(),MAX_INST_SIZE), //oal() truncates the length of larger Adds.
+        Op::Copy(copy) => (copy.len as usize,MAX_INST_SIZE),
+        Op::Run(run) => (run.len as usize,MAX_RUN_LEN as usize),
+    };
+    if size == 0 || size > max {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Operation size {} is not in 1..={}",size,max)));
+    }
+    Ok(())
+}
+
 fn write_op_byte_and_size<W: std::io::Write,A:AddOp>(writer: &mut W, op: &Op<A>) -> std::io::Result<()> {
     let byte = op.bit_flag();
     let size = size_routine(op.oal());
-- 
2.43.0


From 601695dd79b6779b9c91b0f141ae580dd081e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 23/33] fix: do not print to stdout while converting

Every VCDIFF RUN printed a line, which corrupts a patch written to stdout.
---
 smdiff-vcdiff/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 8e28dde..69910f6 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -76,7 +76,6 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                             cur_o_pos += len as u64;
                         },
                         Inst::Run(RUN{ len, byte }) => {
-                            println!("Run @{}: of: {} let: {}",cur_o_pos,byte,len);
                             let total: u32 = len;
                             let mut processed: u32 = 0;
                             while processed < total {
-- 
2.43.0


From 26ddf5f78bd84856bd2dd7b909e580f2fa6c85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 24/33] fix: split periodic VCDIFF copies whose period exceeds
 the largest operation

The length was truncated to 16 bits, so a copy that overlaps itself at a
distance of more than 65535 bytes converted to a different delta.
---
 smdiff-vcdiff/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 69910f6..7f812c4 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -131,8 +131,9 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                 let mut processed: u32 = 0;
                                 while processed < total {
                                     let remaining = total - processed;
-                                    let chunk_size = remaining.min(slice_len);
-                                    //dbg!(slice_len,chunk_size);
+                                    //we repeat the slice, in parts if it is larger than an op can be.
+                                    let slice_pos = processed % slice_len;
+                                    let chunk_size = remaining.min(slice_len - slice_pos).min(MAX_INST_SIZE);
                                     if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                         let header = SectionHeader {
                                             num_operations:cur_win.len() as u32,
@@ -149,7 +150,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                         cur_win_size = 0;
                                         num_add_bytes = 0;
                                     }
-                                    let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
+                                    let op = Op::Copy(Copy{ src, addr: addr + slice_pos as u64, len: chunk_size as u16 });
                                     cur_win.push(op);
                                     processed += chunk_size;
                                     cur_win_size += chunk_size;
-- 
2.43.0


From c83f4dec7f9b698c713de4c31137ecc235e73592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 25/33] fix: refuse source copies past the 64-bit address range
 when extracting

---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ad1185a..92ea07c 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -189,6 +189,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                 smdiff_common::Op::Copy(c) => {
                     match c.src{
                         smdiff_common::CopySrc::Dict => {
+                            if c.addr.checked_add(c.len as u64).is_none(){
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy operation exceeds the largest possible source"));
+                            }
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
-- 
2.43.0


From bd1ba2c4c04f5751929346cae0e58fc4c6cbd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 26/33] fix: refuse compressed sections inside an
 smdiff-compressed section

---
 smdiff-decoder/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 465e2cd..e157037 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -37,7 +37,10 @@ fn apply_no_sec_comp<P:Read,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut src:
     let mut cur_o_pos = 0;
     let mut reader = smdiff_reader::SectionIterator::new(patch);
     while let Some(res) = reader.next_borrowed(){
-        let (ops,_header) = res?;
+        let (ops,header) = res?;
+        if header.compression_algo != 0{
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Secondary compression can not be nested"));
+        }
         apply_ops(ops, &mut src, sink, &mut cur_o_pos)?;
 
     }
-- 
2.43.0


From 870865c6cc858f44489a7c8f74a67684de88e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 27/33] fix: verify the checksum of zstd frames that carry one

---
 smdiff-decoder/src/reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 1a9ec91..0ccdcb7 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -78,6 +78,11 @@ impl<R: Read+Seek> SectionIterator<R>{
                 .map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
             expect_end(&mut zstd)?;
+            //the decoder leaves it to us to compare the checksum of frames that have one.
+            let stored = zstd.decoder.get_checksum_from_data();
+            if stored.is_some() && stored != zstd.decoder.get_calculated_checksum(){
+                return Err(Error::new(ErrorKind::InvalidData, "Checksum mismatch in zstd section"));
+            }
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
-- 
2.43.0


From 46caf9ac1b5e871b8fa4f88fa1b52b93425f23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:49 +0000
Subject: [PATCH 28/33] fix: move the source window on while nothing matches

---
 smdiff-encoder/src/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 314c838..f14f268 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -315,6 +315,10 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                         m.fwd_hash = update_large_checksum_fwd(m.fwd_hash, trgt[cur_o_pos], trgt[cur_o_pos+9]);
                         m.fwd_pos = cur_o_pos+1;
                     }
+                    //the source window must also keep up while nothing matches.
+                    if m.next_hash_pos <= cur_o_pos + 1{
+                        add_start_positions_to_matcher(m, cur_o_pos + 1, src)
+                    }
                 }
                 cur_o_pos += 1;
                 state = EncoderState::TryMatch;
-- 
2.43.0


From d2948d8fb43d0d69649315694b54afb4383a1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 29/33] fix: section iterators end after an error instead of
 repeating it for ever

---
 smdiff-decoder/src/reader.rs |  3 +++
 smdiff-reader/src/lib.rs     | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 0ccdcb7..cc11d24 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -35,6 +35,7 @@ impl<R: Read+Seek> SectionIterator<R>{
         };
         self.ops.clear();
         if let Err(e) = self.read_ops(&mut header){
+            self.done = true; //where the next section starts is unknown.
             return Some(Err(e));
         }
         Some(Ok((&self.ops,header)))
@@ -49,6 +50,7 @@ impl<R: Read+Seek> SectionIterator<R>{
         };
         self.ops.clear();
         if let Err(e) = self.read_ops(&mut header){
+            self.done = true; //where the next section starts is unknown.
             return Some(Err(e));
         }
         Some(Ok((std::mem::take(&mut self.ops),header)))
@@ -60,6 +62,7 @@ impl<R: Read+Seek> SectionIterator<R>{
         match read_section_header(&mut self.source){
             Ok(h) => Some(Ok(h)),
             Err(e) => {
+                self.done = true;
                 return Some(Err(e));
             }
         }
diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 87bb2e5..7b65996 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -243,7 +243,10 @@ impl<R: Read> SectionIterator<R>{
         self.op_buffer.clear();
         let header = match read_section(&mut self.source,&mut self.op_buffer){
             Ok(v) => v,
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.done = true; //where the next section starts is unknown.
+                return Some(Err(e))
+            },
 
         };
         if !header.more_sections{
@@ -259,7 +262,10 @@ impl<R: Read> SectionIterator<R>{
         let mut op_buffer = Vec::new();
         let header = match read_section(&mut self.source,&mut op_buffer){
             Ok(v) => v,
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.done = true; //where the next section starts is unknown.
+                return Some(Err(e))
+            },
 
         };
         if !header.more_sections{
-- 
2.43.0


From 8fef738bfb912629b23b32e380fe2a8a077a6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 30/33] fix: do not write leftovers of a failed section with
 the next one

---
 smdiff-encoder/src/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smdiff-encoder/src/writer.rs b/smdiff-encoder/src/writer.rs
index e49ad66..f76a23a 100644
--- a/smdiff-encoder/src/writer.rs
+++ b/smdiff-encoder/src/writer.rs
@@ -21,6 +21,7 @@ pub fn section_writer<W:Write,A:AddOp>(
         header.compression_algo = comp.algo_value();
         //dbg!(&header);
         write_section_header(&header, writer)?;
+        sec_data_buffer.clear(); //it still holds the ops of a section that could not be written.
         write_ops(seg_ops,&header,sec_data_buffer)?;
         match comp{
             SecondaryCompression::Smdiff (config) => {
-- 
2.43.0


From c4deb2baa9532abaa1c834edbf6840d44a3da668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:00 +0000
Subject: [PATCH 31/33] fix: a source window above half the address space
 overflowed its rounding to a power of two

---
 smdiff-encoder/src/src_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/src_matcher.rs b/smdiff-encoder/src/src_matcher.rs
index a86811b..c552b81 100644
--- a/smdiff-encoder/src/src_matcher.rs
+++ b/smdiff-encoder/src/src_matcher.rs
@@ -157,7 +157,7 @@ impl SrcMatcherConfig {
 
         self.max_src_win_size = Some(self
             .max_src_win_size
-            .map(|s| s.next_power_of_two().max(MIN_SRC_WIN_SIZE))
+            .map(|s| s.checked_next_power_of_two().unwrap_or(1 << (usize::BITS - 1)).max(MIN_SRC_WIN_SIZE))
             .unwrap_or(
                 DEFAULT_SRC_WIN_SIZE
                 //calculate_default_win_size(src_len, trgt_len,None)
-- 
2.43.0


From 03c5e06e813a6786fef12052da0bd52b7928724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:41 +0000
Subject: [PATCH 32/33] fix: slices of a large Add kept the memory of all of it
 when patches were merged

---
 smdiff-merger/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 92ea07c..9ad6c77 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -33,6 +33,8 @@ impl MergeOp for smdiff_reader::Add {
     }
     fn trunc(&mut self,amt:u32){
         self.bytes.truncate(self.bytes.len() - amt as usize);
+        //many small slices might be taken of one large Add, each must only hold its own bytes.
+        self.bytes.shrink_to_fit();
     }
 }
 impl MergeOp for Op{
-- 
2.43.0


From 5bf3ac6bb45e683e36471faf2b9a61647c9ea4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:36 +0000
Subject: [PATCH 33/33] fix: transcode groups whole rows of adjacent Adds and
 Runs, not only pairs of them

---
 smdiff-merger/src/transcoder.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index 561a65e..3f4b5b1 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -83,31 +83,27 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 }
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
-    let mut i = 0;
-    while i + 1 < ops.len() {
-        let (left, right) = ops.split_at_mut(i + 1);
-        if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
-            if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
-                first.append(second);
-            }
-            i += 1;
+    let mut head = 0; //the first op of the current group, it takes the bytes of the others.
+    for i in 1..ops.len() {
+        let (left, right) = ops.split_at_mut(i);
+        match (&mut left[head], &mut right[0]) {
+            (InnerOp::Add(first), InnerOp::Add(second)) => first.append(second),
+            _ => head = i,
         }
-        i += 1;
     }
 }
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
-    let mut i = 0;
-    while i + 1 < ops.len() {
-        let (left, right) = ops.split_at_mut(i + 1);
-        if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
-            if byte1 == byte2 {
+    let mut head = 0;
+    for i in 1..ops.len() {
+        let (left, right) = ops.split_at_mut(i);
+        match (&mut left[head], &mut right[0]) {
+            (InnerOp::Run { byte: byte1, len: len1,.. }, InnerOp::Run { byte: byte2, len: len2, .. }) if byte1 == byte2 => {
                 *len1 += *len2;
                 *len2 = 0;
-            }
-            i += 1;
+            },
+            _ => head = i,
         }
-        i += 1;
     }
 }
 
-- 
2.43.0

