From 7b384201b6fbcb5a79de66a97e2a0a1b2f6d1eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 01/36] fix: recognise delta copy commands by their high bit

The mask had seven digits, so inserts of 64 bytes or more were decoded as
copies and copies without a third size byte as inserts.
---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..266e3ca 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -132,7 +132,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
-- 
2.43.0


From 9d4f4ce8eba3cc2209a4684f331a1cd3fc6a2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 02/36] fix: append to the delta result

`copy_from_slice` on the empty result buffer panicked for every delta.
---
 src/object/database/packed/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 266e3ca..5e03914 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -61,7 +61,7 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        result.extend_from_slice(src);
         delta.clear_buffer();
     }
 
-- 
2.43.0


From a6f06b19b5c5e2f320876ae03c7b2a09c8a93692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 03/36] fix: keep unread bytes when clearing the delta buffer

Reading the delta header reads ahead, so clearing the whole buffer after a
command lost the commands following it.
---
 src/parse/buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..37f20e3 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -3,7 +3,7 @@ use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
-use bytes::{Bytes, BytesMut};
+use bytes::{Buf, Bytes, BytesMut};
 use flate2::read::ZlibDecoder;
 use memchr::memchr;
 
@@ -48,10 +48,10 @@ impl<R: Read> Buffer<R> {
         mem::take(&mut self.buffer).freeze().slice(range)
     }
 
-    /// Clear the internal buffer
+    /// Discard the bytes in the internal buffer which have already been observed.
     pub fn clear_buffer(&mut self) {
+        self.buffer.advance(self.pos);
         self.pos = 0;
-        self.buffer.clear();
     }
 
     /// Create a parser for the given range of bytes.
-- 
2.43.0


From 4a2a30cce4fe53ba3874a242aed72d68369601b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 04/36] fix: apply delta chains starting from the base

The chain is collected from the requested object towards its base, so it has
to be applied in reverse order.
---
 src/object/database/packed/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..2c57b44 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,7 +127,7 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
+        for entry in chain.into_iter().rev() {
             let (new_header, new_base) = self.apply_delta(base, entry)?;
             header = new_header;
             base = new_base;
-- 
2.43.0


From c6598bc865bef9c74d43007a9a0164559da10c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 05/36] fix: reject objects with excess data in the read-ahead
 buffer

Reading the object header reads ahead up to 28 bytes. Excess data within
those bytes was not noticed and ended up in the object.
---
 src/parse/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 37f20e3..2db4440 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -161,6 +161,11 @@ impl<R: Read> Buffer<R> {
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
 
+        // There may be excess data which has already been buffered
+        if self.pos != self.buffer.len() {
+            return Err(Error::InvalidLength);
+        }
+
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
         // ahead of time, we can avoid this.
-- 
2.43.0


From 139b0a1185973e2c9472f964ed12ac08002e7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 06/36] fix: don't allocate memory for data which may not exist

A corrupt object length made the buffer allocate (and zero) that many bytes up
front, aborting the process. Large objects were also zeroed again for each read.
---
 src/parse/buffer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 2db4440..79c5141 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -10,6 +10,10 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
+/// The most the buffer grows by before reading into it. Lengths come from the
+/// data being parsed, so they can't be trusted when allocating memory.
+const MAX_READ_LEN: usize = 64 * 1024;
+
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
 pub(crate) struct Buffer<R> {
@@ -187,7 +191,8 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
-            self.buffer.resize(end, b'\0');
+            self.buffer
+                .resize(end.min(old_len + MAX_READ_LEN), b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
                 Ok(read) => {
-- 
2.43.0


From 8fa9854197e51f18995476e55ddf62ae70703f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 07/36] fix: decompress packed objects using their uncompressed
 length

The length in a packed object header is the length of the uncompressed data,
but it was used as the length of the compressed data, so small or
incompressible objects were truncated and objects near the end of the pack
were not readable. Deltas were applied to the compressed base, and their
result was decompressed again.
---
 src/object/database/packed/pack.rs |  8 +++++---
 src/object/database/reader.rs      | 26 +++++---------------------
 src/parse/buffer.rs                | 20 +++++---------------
 3 files changed, 15 insertions(+), 39 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 2c57b44..1b4330d 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,9 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let data_offset = offset + buffer.pos() as u64;
+                    buffer.seek(SeekFrom::Start(data_offset))?;
+                    let base = buffer.decompress().read_to_end(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
@@ -203,7 +204,8 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let data = buffer.decompress().read_to_end(delta.header.len)?;
+        let result = apply_delta(delta.header.kind, &base, &mut parse::Buffer::new(&*data))?;
 
         Ok(self
             .cache
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..c78506c 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,4 +1,4 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
 use bytes::buf::ext::BufExt;
 use bytes::Bytes;
@@ -10,11 +10,11 @@ use crate::parse;
 
 pub struct ObjectReader {
     header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
+    File(ZlibDecoder<BufReader<fs_err::File>>),
     Bytes(bytes::buf::ext::Reader<Bytes>),
 }
 
@@ -25,7 +25,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
@@ -35,7 +35,7 @@ impl ObjectReader {
     ) -> Self {
         ObjectReader {
             header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(bytes.reader()),
         }
     }
 
@@ -63,19 +63,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 79c5141..6a31ad9 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,5 +1,4 @@
 use std::io::{self, Read, Seek, SeekFrom};
-use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
@@ -44,14 +43,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Discard the bytes in the internal buffer which have already been observed.
     pub fn clear_buffer(&mut self) {
         self.buffer.advance(self.pos);
@@ -66,14 +57,13 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
+    /// Return a buffer that decompresses the zlib stream at the position of the reader.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress<'a>(&'a mut self) -> Buffer<ZlibDecoder<impl Read + 'a>> {
         debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
 
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
+        let reader = ZlibDecoder::new(self.reader.by_ref());
         Buffer::new(reader)
     }
 
-- 
2.43.0


From cb588f32dcf20957e47521175ad36c42c0080d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 08/36] fix: give delta objects the type of their base

They kept the delta type, which can't be parsed.
---
 src/object/database/packed/pack.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 1b4330d..3435a8e 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -128,7 +128,7 @@ impl PackFile {
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
         for entry in chain.into_iter().rev() {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -197,6 +197,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -205,7 +206,7 @@ impl PackFile {
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
         let data = buffer.decompress().read_to_end(delta.header.len)?;
-        let result = apply_delta(delta.header.kind, &base, &mut parse::Buffer::new(&*data))?;
+        let result = apply_delta(kind, &base, &mut parse::Buffer::new(&*data))?;
 
         Ok(self
             .cache
-- 
2.43.0


From 892b06baa5ef1803867fddfb454f5d084312b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 09/36] fix: decode multi-byte delta offsets

Git adds one for each continuation byte of the offset to the base. Offsets
which don't fit saturate; they are always invalid.
---
 src/object/database/packed/pack.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 3435a8e..653d3fc 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -284,8 +284,14 @@ impl<R: Read> parse::Buffer<R> {
         let mut offset: u64 = 0;
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            offset = offset
+                .saturating_mul(1 << 7)
+                .saturating_add(u64::from(byte & 0b0111_1111));
+            if byte & 0b1000_0000 != 0 {
+                // Each continuation bit adds one, so that there is only one
+                // encoding of each offset
+                offset = offset.saturating_add(1);
+            }
         }
 
         Ok(offset)
-- 
2.43.0


From 7653d8497ea8f7dbe9ee71e252d5e30e146d7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 10/36] fix: detect loops of several reference deltas

Only a delta based on itself was detected, longer loops never terminated.
---
 src/object/database/packed/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 653d3fc..193d2bd 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -188,7 +188,7 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            if chain.iter().any(|entry| entry.key == base_offset) {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From 7c7bdeb8f08ed742e60aef08fa82356ed6c9be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 11/36] fix: don't trust the result length of a delta

A corrupt length aborted the process when allocating the result, or let the
result grow beyond the given length.
---
 src/object/database/packed/delta.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index 5e03914..26dc2ec 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -26,6 +26,9 @@ pub(in crate::object::database::packed) enum DeltaError {
     Parse(#[from] parse::Error),
 }
 
+// The result length is not trusted until the delta was applied.
+const MAX_PREALLOCATED_LEN: usize = 1024 * 1024;
+
 enum Command {
     CopyFromBase { offset: usize, len: usize },
     CopyFromDelta { len: usize },
@@ -40,7 +43,7 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    let mut result = BytesMut::with_capacity(header.result_len.min(MAX_PREALLOCATED_LEN));
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
@@ -61,6 +64,9 @@ where
             }
         };
 
+        if src.len() > header.result_len - result.len() {
+            return Err(DeltaError::ResultLengthMismatch);
+        }
         result.extend_from_slice(src);
         delta.clear_buffer();
     }
-- 
2.43.0


From 8f5224254a47621eda17a79fa76ffd9beb0d707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 12/36] fix: reject pack indexes with a partial large offset

Splitting the table of large offsets panicked.
---
 src/object/database/packed/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..618816d 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -135,6 +135,13 @@ impl IndexFile {
             ));
         }
 
+        // The remaining space is a table of 8-byte offsets
+        if (parser.remaining() - min_size) % 8 != 0 {
+            return Err(ReadIndexFileError::Other(
+                "index length is an invalid length",
+            ));
+        }
+
         Ok(IndexFile {
             data: parser.into_inner(),
             count,
-- 
2.43.0


From 352b5a43d2de66505856a0478f9fa1a01f6667d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 13/36] fix: read loose objects when there is no pack folder

Reading any object failed in a repository without an `objects/pack` folder.
---
 src/object/database/packed.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..c4cf5fe 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,14 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            // Without the folder there are no packs
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(false),
+            Err(err) => return Err(err.into()),
+        };
+
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From 6c1664e3d64e065cb43cb9f1b07d9e3176f1b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 14/36] fix: ignore packs deleted while refreshing

A repack deleting a pack between listing the pack folder and opening the pack
made the read fail, even if the object was available elsewhere.
---
 src/object/database/packed.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index c4cf5fe..11fb6bb 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -144,9 +144,16 @@ impl PackedObjectDatabase {
         for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
-                self.packs
+                match self
+                    .packs
                     .entry(path.clone())
-                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))?;
+                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))
+                {
+                    Ok(_) => (),
+                    // The pack was deleted after listing the folder
+                    Err(err) if err.is_not_found() => (),
+                    Err(err) => return Err(err.into()),
+                }
             }
         }
 
@@ -155,6 +162,18 @@ impl PackedObjectDatabase {
     }
 }
 
+impl ReadEntryError {
+    fn is_not_found(&self) -> bool {
+        match &self.kind {
+            ReadEntryErrorKind::ReadIndexFile(ReadIndexFileError::Io(err))
+            | ReadEntryErrorKind::ReadPackFile(ReadPackFileError::Io(err)) => {
+                err.kind() == io::ErrorKind::NotFound
+            }
+            _ => false,
+        }
+    }
+}
+
 impl Entry {
     fn open(path: PathBuf) -> Result<Self, ReadEntryError> {
         // The file has an extension so it must have a file name
-- 
2.43.0


From ab32eccefb826bf2981b90e40c33de9bb15ba960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 15/36] fix: find objects packed shortly after the last refresh

The retry after a miss didn't look for new packs if there was a refresh within
the last two seconds, so an object which was packed (and its loose file
deleted) in that time was reported as not found.
---
 src/object/database.rs        |  2 +-
 src/object/database/packed.rs | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..dec80c2 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -72,7 +72,7 @@ impl ObjectDatabase {
 
         // object may have just been packed, try again
         self.packed
-            .read_object(&ShortId::from(id))
+            .refresh_and_read_object(&ShortId::from(id))
             .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
     }
 
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 11fb6bb..ef03a03 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,11 +83,22 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh()? => self.try_read_object(short_id),
+            Err(ReadPackedError::NotFound) if self.refresh(false)? => {
+                self.try_read_object(short_id)
+            }
             result => result,
         }
     }
 
+    /// Read an object after refreshing, even if the last refresh was recent.
+    pub(in crate::object::database) fn refresh_and_read_object(
+        &self,
+        short_id: &ShortId,
+    ) -> Result<ObjectReader, ReadPackedError> {
+        self.refresh(true)?;
+        self.try_read_object(short_id)
+    }
+
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
         let mut result = None;
         let mut found_id = None;
@@ -123,12 +134,12 @@ impl PackedObjectDatabase {
         }
     }
 
-    fn refresh(&self) -> Result<bool, ReadPackedError> {
+    fn refresh(&self, force: bool) -> Result<bool, ReadPackedError> {
         // Keep the mutex locked while refreshing so we don't have multiple thread refreshing simultaneously.
         // This isn't necessary for correctness, but is just an optimization.
         let mut last_refresh_guard = self.last_refresh.lock().unwrap();
         match *last_refresh_guard {
-            Some(last_refresh) if last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
+            Some(last_refresh) if !force && last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
                 return Ok(false)
             }
             _ => (),
-- 
2.43.0


From 45eaa00461027574c2c811c1cda3c741aa2f579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 16/36] fix: write loose objects atomically

A crash or an io error while writing left a truncated object behind, which was
then taken for an existing object by later writes. Concurrent readers and
writers also saw the partial object.
---
 src/object/database/loose.rs | 42 ++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..9f9a96b 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,8 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -79,22 +81,48 @@ impl LooseObjectDatabase {
         }
 
         path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
+        match fs_err::metadata(&path) {
+            Ok(_) => {
                 let _ = set_file_mtime(path, FileTime::now());
                 return Ok(id);
             }
-            Err(err) => return Err(err.into()),
-        };
+            Err(err) if err.kind() != io::ErrorKind::NotFound => return Err(err.into()),
+            Err(_) => (),
+        }
 
+        // Write to a temporary file first, so that the object is either complete or doesn't exist.
+        let (file, temp_path) = create_temp_file(&path)?;
         let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
+        let result = encoder
+            .write_all(bytes)
+            .and_then(|()| encoder.finish())
+            .and_then(|_| fs_err::rename(&temp_path, &path));
+        if let Err(err) = result {
+            let _ = fs_err::remove_file(&temp_path);
+            return Err(err.into());
+        }
         Ok(id)
     }
 }
 
+fn create_temp_file(path: &Path) -> io::Result<(fs_err::File, PathBuf)> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let counter = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let temp_path = path.with_file_name(format!("tmp_obj_{}_{}", process::id(), counter));
+        match OpenOptions::new()
+            .create_new(true)
+            .write(true)
+            .open(&temp_path)
+        {
+            Ok(file) => return Ok((fs_err::File::from_parts(file, &temp_path), temp_path)),
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => (),
+            Err(err) => return Err(err),
+        }
+    }
+}
+
 fn object_path_parts(hex: &str) -> (&str, &str) {
     hex.split_at(2)
 }
-- 
2.43.0


From 75c8dbd6f9effa4710c719b4b15c609f61d6a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 17/36] fix: don't strip digits and punctuation from identities

The padding characters end with a space, which is 32 in decimal. As 0x32 was
used instead, names and emails lost leading digits and punctuation.
---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..e745e61 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,7 +22,7 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-- 
2.43.0


From 4ffff70766f851095aca9052857424a680910232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 18/36] fix: don't cut off identities which aren't UTF-8

Without disabling unicode mode `.` doesn't match invalid UTF-8, so the name
started after the last invalid byte.
---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index e745e61..d37ebdf 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -26,7 +26,7 @@ impl<'a> Signature<'a> {
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From f2da53c151952d647fb2c14dd70a54c7663624bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 19/36] fix: accept identities without a name

Some tools (for example git fast-import) write only the email.
---
 src/object/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index d37ebdf..7922f25 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -26,7 +26,7 @@ impl<'a> Signature<'a> {
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad}(?:^| )<{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 4c586b5de612da3501c0ba9287336d9bece59a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 20/36] fix: find the message of tags with additional headers

---
 src/object/tag.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/object/tag.rs b/src/object/tag.rs
index fe47d60..04a3c66 100644
--- a/src/object/tag.rs
+++ b/src/object/tag.rs
@@ -49,11 +49,15 @@ impl Tag {
 
         let tagger = parser.parse_signature(b"tagger ")?;
 
-        let message = if parser.consume_bytes(b"\n") {
-            Some(parser.pos())
-        } else {
-            None
-        };
+        // Consume additional tag headers
+        let mut message = None;
+        while message.is_none() && !parser.finished() {
+            if parser.consume_bytes(b"\n") {
+                message = Some(parser.pos());
+            } else if parser.consume_until(b'\n').is_none() {
+                break;
+            }
+        }
 
         Ok(Tag {
             data: parser.into_inner(),
-- 
2.43.0


From 74de05483b78ef0a78c6b9f9b3705c60ea38683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 21/36] fix: report errors while listing reference folders

The remaining names were silently left out if reading a folder failed.
---
 src/reference/database.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..981a4be 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -100,11 +100,9 @@ impl ReferenceDatabase {
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
         match fs::read_dir(path) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
-                .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
-                    Ok(true) => self.get_file_paths_from_dir(&f.path()),
-                    Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
+                .flat_map(|f| match f.and_then(|f| Ok((f.file_type()?.is_dir(), f.path()))) {
+                    Ok((true, path)) => self.get_file_paths_from_dir(&path),
+                    Ok((false, path)) => vec![Ok(path)],
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
-- 
2.43.0


From 6302ef921c672cb4eff8f86e63506fdd848cab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 22/36] fix: list references when there are no remotes

Listing references failed unless all of `refs/heads`, `refs/tags` and
`refs/remotes` existed, but git only creates `refs/remotes` when fetching.
---
 src/reference/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 981a4be..75b62b6 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -106,6 +106,8 @@ impl ReferenceDatabase {
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
+            // The folder doesn't have to exist, for example if there are no remotes
+            Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From f4dd0d727c9a1a8ef7b0fa2a78a0f8336bb79fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 23/36] fix: don't list lock files as references

---
 src/reference/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 75b62b6..271ee90 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -102,6 +102,8 @@ impl ReferenceDatabase {
             Ok(files) => files
                 .flat_map(|f| match f.and_then(|f| Ok((f.file_type()?.is_dir(), f.path()))) {
                     Ok((true, path)) => self.get_file_paths_from_dir(&path),
+                    // Git locks a reference by creating a file with this extension
+                    Ok((false, path)) if path.extension() == Some("lock".as_ref()) => vec![],
                     Ok((false, path)) => vec![Ok(path)],
                     Err(error) => vec![Err(Error::Io(error))],
                 })
-- 
2.43.0


From 002f527db2d6ef5ff6b62d5c1b4a64bdd43ebe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 24/36] fix: don't follow references out of the repository

A symbolic reference with an absolute path or `..` components made the library
read arbitrary files.
---
 src/reference/database.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 271ee90..2423654 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,7 +1,7 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
 use std::ffi::OsStr;
@@ -73,7 +73,13 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        if name.is_absolute() || name.components().any(|c| c == Component::ParentDir) {
+            // References are always stored in the repository
+            return Err(Error::ReferenceNotFound);
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
             Ok(file) => Ok(file),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
             Err(err) => Err(err.into()),
-- 
2.43.0


From 38dc602f6548bfd99f3867e0ca97222ef30010ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 25/36] fix: always treat 'ref: ' lines as symbolic references

Symbolic references to names without a slash, like HEAD, were parsed as ids.
---
 src/reference/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..687594b 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -73,6 +73,10 @@ impl<R: Read> Parser<R> {
 
         if line.starts_with(SYMBOLIC_PREFIX) {
             line = &line[SYMBOLIC_PREFIX.len()..];
+            return Ok(ReferenceTarget::Symbolic(Symbolic::from_bytes(
+                line.trim_end(),
+                None,
+            )?));
         }
 
         let peel = match memchr(b' ', line) {
-- 
2.43.0


From 9fda0289b1a5dad740819bad5173cbe5c9ea10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 26/36] fix: report loops of symbolic references

Peeling a reference which refers to itself overflowed the stack.
---
 src/reference.rs          |  2 ++
 src/reference/symbolic.rs | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..f1827e8 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -36,6 +36,8 @@ pub enum Error {
     ReferenceNameInvalidUtf16,
     #[error("reference was given as invalid Utf8")]
     ReferenceNameInvalidUtf8,
+    #[error("too many levels of symbolic references")]
+    SymbolicReferenceLoop,
     #[error("failed to dereference to an object")]
     DereferencingFailed(
         #[source]
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..4a30519 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -2,9 +2,12 @@ use bstr::{BStr, ByteSlice};
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, ReferenceTarget};
 use crate::repository::Repository;
 
+// The maximum length of a chain of symbolic references.
+const MAX_DEPTH: usize = 5;
+
 #[derive(PartialEq)]
 pub struct Symbolic {
     direct_peel: Option<Direct>,
@@ -31,9 +34,17 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
+        self.peel_to_depth(repo, MAX_DEPTH)
+    }
+
+    fn peel_to_depth(&self, repo: &Repository, depth: usize) -> Result<Object, Error> {
         match &self.direct_peel {
             Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+            None => match repo.reference_database().reference(&self.data)?.target() {
+                ReferenceTarget::Symbolic(_) if depth <= 1 => Err(Error::SymbolicReferenceLoop),
+                ReferenceTarget::Symbolic(s) => s.peel_to_depth(repo, depth - 1),
+                ReferenceTarget::Direct(d) => d.object(repo),
+            },
         }
     }
 }
-- 
2.43.0


From 4f941817fbea5f3af737caef47f6fce249be7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 27/36] fix: keep non-ascii whitespace at the end of reference
 names

---
 src/reference/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 687594b..df09d2c 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -1,4 +1,3 @@
-use bstr::ByteSlice;
 use std::io::{self, Read};
 use std::ops::Range;
 
@@ -74,14 +73,14 @@ impl<R: Read> Parser<R> {
         if line.starts_with(SYMBOLIC_PREFIX) {
             line = &line[SYMBOLIC_PREFIX.len()..];
             return Ok(ReferenceTarget::Symbolic(Symbolic::from_bytes(
-                line.trim_end(),
+                trim_end(line),
                 None,
             )?));
         }
 
         let peel = match memchr(b' ', line) {
             Some(ch_pos) => {
-                let p = line[..ch_pos].trim_end();
+                let p = trim_end(&line[..ch_pos]);
                 line = &line[(ch_pos + 1)..];
                 Some(p)
             }
@@ -89,8 +88,8 @@ impl<R: Read> Parser<R> {
         };
 
         let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(&line.trim_end())?),
+            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(trim_end(line), peel)?),
+            None => ReferenceTarget::Direct(Direct::from_bytes(trim_end(line))?),
         };
 
         Ok(target)
@@ -128,6 +127,12 @@ impl<R: Read> Parser<R> {
     }
 }
 
+/// Remove trailing ascii whitespace. Names can end with any other character.
+fn trim_end(line: &[u8]) -> &[u8] {
+    let end = line.iter().rposition(|b| !b.is_ascii_whitespace());
+    &line[..end.map_or(0, |pos| pos + 1)]
+}
+
 #[cfg(test)]
 mod tests {
     use super::{ParseError, Parser};
-- 
2.43.0


From 2521585214c881bf7bcf47859ec38558e5a2072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 28/36] fix: read intact objects next to damaged packs

---
 src/object/database.rs        | 10 +++++-----
 src/object/database/packed.rs | 30 +++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index dec80c2..d000c18 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -58,11 +58,11 @@ impl ObjectDatabase {
     }
 
     pub fn read_object(&self, id: Id) -> Result<ObjectReader, ReadObjectError> {
-        match self.packed.read_object(&ShortId::from(id)) {
-            Ok(reader) => return Ok(reader),
-            Err(ReadPackedError::NotFound) => (),
-            Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
-        };
+        // If this fails for any reason there can still be an intact copy of the object, otherwise
+        // the error is reported when trying again.
+        if let Ok(reader) = self.packed.read_object(&ShortId::from(id)) {
+            return Ok(reader);
+        }
 
         match self.loose.read_object(&id) {
             Ok(reader) => return Ok(reader),
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index ef03a03..0718a9a 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,8 +83,9 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh(false)? => {
-                self.try_read_object(short_id)
+            Err(ReadPackedError::NotFound) => {
+                let refreshed = self.refresh(false);
+                self.try_read_refreshed(short_id, refreshed)
             }
             result => result,
         }
@@ -95,8 +96,20 @@ impl PackedObjectDatabase {
         &self,
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
-        self.refresh(true)?;
-        self.try_read_object(short_id)
+        let refreshed = self.refresh(true);
+        self.try_read_refreshed(short_id, refreshed)
+    }
+
+    /// Packs which can't be opened don't matter if the object is found in another one.
+    fn try_read_refreshed(
+        &self,
+        short_id: &ShortId,
+        refreshed: Result<bool, ReadPackedError>,
+    ) -> Result<ObjectReader, ReadPackedError> {
+        match (self.try_read_object(short_id), refreshed) {
+            (Err(ReadPackedError::NotFound), Err(err)) => Err(err),
+            (result, _) => result,
+        }
     }
 
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
@@ -152,6 +165,7 @@ impl PackedObjectDatabase {
             Err(err) => return Err(err.into()),
         };
 
+        let mut result = Ok(true);
         for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
@@ -163,13 +177,15 @@ impl PackedObjectDatabase {
                     Ok(_) => (),
                     // The pack was deleted after listing the folder
                     Err(err) if err.is_not_found() => (),
-                    Err(err) => return Err(err.into()),
+                    Err(err) => result = Err(err.into()),
                 }
             }
         }
 
-        *last_refresh_guard = Some(Instant::now());
-        Ok(true)
+        if result.is_ok() {
+            *last_refresh_guard = Some(Instant::now());
+        }
+        result
     }
 }
 
-- 
2.43.0


From e85f4df8d239c5b3d4dd8ed4d5e400c0661d3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 29/36] fix: find objects which are moved to a place already
 searched while reading

---
 src/object/database.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index d000c18..69989af 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -64,16 +64,23 @@ impl ObjectDatabase {
             return Ok(reader);
         }
 
+        match self.read_loose_or_refreshed(id) {
+            // The object may have been moved (by repacking or unpacking) while searching, from a
+            // place which wasn't searched yet to one which had been. Search both again.
+            Err(ReadError::NotFound) => self.read_loose_or_refreshed(id),
+            result => result,
+        }
+        .map_err(|err| ReadObjectError::new(id, err))
+    }
+
+    fn read_loose_or_refreshed(&self, id: Id) -> Result<ObjectReader, ReadError> {
         match self.loose.read_object(&id) {
-            Ok(reader) => return Ok(reader),
             Err(ReadLooseError::NotFound) => (),
-            Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
+            result => return Ok(result?),
         }
 
         // object may have just been packed, try again
-        self.packed
-            .refresh_and_read_object(&ShortId::from(id))
-            .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
+        Ok(self.packed.refresh_and_read_object(&ShortId::from(id))?)
     }
 
     pub fn write_object(&self, bytes: &[u8]) -> Result<Id, WriteError> {
-- 
2.43.0


From 3b6bed5ed3042a0c54343ecaafd3666cce78cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 30/36] fix: read another packed copy of an object if one is
 damaged

---
 src/object/database/packed.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 0718a9a..6ee215b 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -113,7 +113,8 @@ impl PackedObjectDatabase {
     }
 
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
-        let mut result = None;
+        let mut result = Err(ReadPackedError::NotFound);
+        let mut copies = Vec::new();
         let mut found_id = None;
         for entry in self.packs.iter() {
             match entry.value().index.find_offset(short_id) {
@@ -123,11 +124,11 @@ impl PackedObjectDatabase {
                 }
                 Ok((offset, id)) => {
                     found_id = Some(id);
-                    result = Some((entry.value().clone(), offset))
+                    copies.push((entry.value().clone(), offset))
                 }
                 Err(FindIndexOffsetError::NotFound) => continue,
                 Err(FindIndexOffsetError::ReadIndexFile(err)) => {
-                    return Err(ReadPackedError::ReadEntry(ReadEntryError {
+                    result = Err(ReadPackedError::ReadEntry(ReadEntryError {
                         name: entry.name.clone(),
                         kind: ReadEntryErrorKind::ReadIndexFile(err),
                     }))
@@ -135,16 +136,19 @@ impl PackedObjectDatabase {
             }
         }
 
-        match result {
-            Some((entry, offset)) => match entry.pack.read_object(&entry.index, offset) {
-                Ok(reader) => Ok(reader),
-                Err(err) => Err(ReadPackedError::ReadEntry(ReadEntryError {
-                    name: entry.name.clone(),
-                    kind: ReadEntryErrorKind::ReadPackFile(err),
-                })),
-            },
-            None => Err(ReadPackedError::NotFound),
+        // If a copy of the object is damaged there can still be an intact one in another pack.
+        for (entry, offset) in copies {
+            match entry.pack.read_object(&entry.index, offset) {
+                Ok(reader) => return Ok(reader),
+                Err(err) => {
+                    result = Err(ReadPackedError::ReadEntry(ReadEntryError {
+                        name: entry.name.clone(),
+                        kind: ReadEntryErrorKind::ReadPackFile(err),
+                    }))
+                }
+            }
         }
+        result
     }
 
     fn refresh(&self, force: bool) -> Result<bool, ReadPackedError> {
-- 
2.43.0


From 372bb78e8c11cf1b1ac4fbb7851714663bae1cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 31/36] fix: find loops of deltas in linear time

---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 193d2bd..7e04760 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -188,7 +188,8 @@ impl PackFile {
                 header,
             });
 
-            if chain.iter().any(|entry| entry.key == base_offset) {
+            // There is at least one object which isn't a delta, unless the chain has a loop
+            if chain.len() >= self.count as usize {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From e3a2152b9f25490f159e75de013c8637abe12e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 32/36] fix: serve the opened repository after the current
 directory changes

---
 src/repository.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/repository.rs b/src/repository.rs
index 5495ef1..5abc18e 100644
--- a/src/repository.rs
+++ b/src/repository.rs
@@ -1,3 +1,4 @@
+use std::env;
 use std::io;
 use std::path::PathBuf;
 
@@ -36,7 +37,7 @@ impl Repository {
     {
         let path = path.into();
 
-        let dotgit = path.join(DOTGIT_FOLDER);
+        let mut dotgit = path.join(DOTGIT_FOLDER);
         match fs_err::metadata(&dotgit) {
             Ok(metadata) if metadata.is_dir() => (),
             Ok(_) => return Err(OpenError::NotFound(path)),
@@ -45,6 +46,10 @@ impl Repository {
             }
             Err(err) => return Err(OpenError::from(err)),
         };
+        if dotgit.is_relative() {
+            // This stays the same directory if the current directory changes
+            dotgit = env::current_dir()?.join(dotgit);
+        }
 
         let object_database = ObjectDatabase::open(&dotgit);
         let reference_database = ReferenceDatabase::open(dotgit.clone());
-- 
2.43.0


From 650f5bd07f9d410bff75fd0453702901027e7536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 33/36] fix: use the peeled id of the last reference of a chain

---
 src/reference/symbolic.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 4a30519..fc75b5a 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -38,13 +38,16 @@ impl Symbolic {
     }
 
     fn peel_to_depth(&self, repo: &Repository, depth: usize) -> Result<Object, Error> {
-        match &self.direct_peel {
-            Some(direct) => direct.object(repo),
-            None => match repo.reference_database().reference(&self.data)?.target() {
-                ReferenceTarget::Symbolic(_) if depth <= 1 => Err(Error::SymbolicReferenceLoop),
-                ReferenceTarget::Symbolic(s) => s.peel_to_depth(repo, depth - 1),
-                ReferenceTarget::Direct(d) => d.object(repo),
-            },
+        if let Some(direct) = &self.direct_peel {
+            return direct.object(repo);
+        }
+        if depth == 0 {
+            return Err(Error::SymbolicReferenceLoop);
+        }
+
+        match repo.reference_database().reference(&self.data)?.target() {
+            ReferenceTarget::Symbolic(s) => s.peel_to_depth(repo, depth - 1),
+            ReferenceTarget::Direct(d) => d.object(repo),
         }
     }
 }
-- 
2.43.0


From 1d861f8c6fd04c48240c54deacae98644a1a187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 34/36] fix: list references while a reference takes the place
 of a folder

---
 src/reference/database.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 2423654..fd1353f 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -111,15 +111,24 @@ impl ReferenceDatabase {
                     // Git locks a reference by creating a file with this extension
                     Ok((false, path)) if path.extension() == Some("lock".as_ref()) => vec![],
                     Ok((false, path)) => vec![Ok(path)],
+                    Err(error) if ReferenceDatabase::is_missing(&error) => vec![],
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
             // The folder doesn't have to exist, for example if there are no remotes
-            Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
+            Err(error) if ReferenceDatabase::is_missing(&error) => vec![],
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
 
+    // References may be deleted while they are listed, and a reference may take the place of a folder
+    fn is_missing(error: &io::Error) -> bool {
+        matches!(
+            error.kind(),
+            io::ErrorKind::NotFound | io::ErrorKind::NotADirectory
+        )
+    }
+
     fn reference_name_from_file(&self, path: &Path) -> Result<Vec<u8>, Error> {
         ReferenceDatabase::path_to_bytes(&pathdiff::diff_paths(path, &self.path).unwrap()).map(
             |bytes| {
-- 
2.43.0


From 81d9f218d202db6232752fe5baa235191a57dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:14 +0000
Subject: [PATCH 35/36] fix: reject references with other text than an id

'<text> <id>' was taken for a direct reference.
---
 src/reference/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index df09d2c..b89c59b 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -78,6 +78,7 @@ impl<R: Read> Parser<R> {
             )?));
         }
 
+        let whole_line = line;
         let peel = match memchr(b' ', line) {
             Some(ch_pos) => {
                 let p = trim_end(&line[..ch_pos]);
@@ -89,7 +90,7 @@ impl<R: Read> Parser<R> {
 
         let target = match memchr(b'/', line) {
             Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(trim_end(line), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(trim_end(line))?),
+            None => ReferenceTarget::Direct(Direct::from_bytes(trim_end(whole_line))?),
         };
 
         Ok(target)
-- 
2.43.0


From 13f4bc1db4e358d736a3dd6a6d8aca65d794fea5 Mon Sep 17 00:00:00 2001
From: test <test@example.com>
Date: Fri, 20 Nov 2026 04:51:49 +0000
Subject: [PATCH 36/36] fix: recreate the object folder when git removes it
 during a write

git prune-packed and git gc remove folders which are empty. If that happened
between creating the folder and creating the temporary file in it, the write
failed.
---
 src/object/database/loose.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 9f9a96b..9f23d88 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -91,7 +91,14 @@ impl LooseObjectDatabase {
         }
 
         // Write to a temporary file first, so that the object is either complete or doesn't exist.
-        let (file, temp_path) = create_temp_file(&path)?;
+        let (file, temp_path) = match create_temp_file(&path) {
+            // Git removes folders which are empty, so it may have to be created again.
+            Err(err) if err.kind() == io::ErrorKind::NotFound => {
+                fs_err::create_dir_all(self.path.join(dir))?;
+                create_temp_file(&path)?
+            }
+            result => result?,
+        };
         let mut encoder = ZlibEncoder::new(file, Compression::best());
         let result = encoder
             .write_all(bytes)
-- 
2.43.0

