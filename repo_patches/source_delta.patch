From b829ae773c179a039a1f547f389931a9dbe6d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:04 +0000
Subject: [PATCH 01/24] fix: bound read_from buffers by their capacity

BytesMut::remaining_mut() counts the room the buffer could grow to, so the
fill loop never ended before end of file. The whole source was read into a
single growing buffer before max_body_ram or max_body was consulted. Compare
with the remaining capacity instead.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..b81e8e2 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -649,7 +649,7 @@ impl BodyImage {
                 }
                 unsafe { buf.advance_mut(len); }
 
-                if buf.remaining_mut() < 1024 {
+                if buf.capacity() - buf.len() < 1024 {
                     break 'fill;
                 }
             }
-- 
2.43.0


From fc52fd557a6204dfbc2931eef7f9f8865a9b8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:05 +0000
Subject: [PATCH 02/24] fix: count bytes already in the sink toward max_body

When read_from switches from RAM to a file, bytes read so far are in the body
but were not counted by read_to_body_fs, so a body of up to max_body plus
max_body_ram and a buffer was accepted.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index b81e8e2..a729311 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -740,7 +740,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From 2509f512df78e0e7923ef16c0ef66e8b40c3ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:07 +0000
Subject: [PATCH 03/24] fix: limit write_to and mem_map to the length of the
 body

With from_file and a length less than the file, write_to and mem_map used all
of the file while len() and reader() are limited to the given length.
---
 body-image/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index a729311..f351dc1 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,7 +53,7 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
@@ -522,7 +522,7 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                ReadSlice::new(file.clone(), 0, self.len).mem_map()?
             }
             ImageState::FsReadSlice(ref rslice) => {
                 rslice.mem_map()?
@@ -675,7 +675,7 @@ impl BodyImage {
     }
 
     /// Write self to `out` and return length. If `FsRead` this is performed
-    /// using `std::io::copy` with `ReadPos` as input.
+    /// using `std::io::copy` with `ReadSlice` as input.
     ///
     /// The `Write` is passed by reference for backward compatibility with its
     /// original non-generic form as `&mut dyn Write`. [C-RW-VALUE] prefers
@@ -698,8 +698,8 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                let mut rs = ReadSlice::new(f.clone(), 0, self.len);
+                io::copy(&mut rs, out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-- 
2.43.0


From 9c4f58f03bb4f95f75891ff1d3a3bec6843bac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:08 +0000
Subject: [PATCH 04/24] fix: drop partial chunk from BodySink file on failed
 write

A write to the temporary file may fail part way through a chunk. The sink
length was not changed, but the partial chunk stayed in the file and later
chunks were written after it, so the resulting body had wrong content.
---
 body-image/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index f351dc1..6a913a5 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -282,7 +282,7 @@ impl BodySink {
                 let buf = buf.as_ref();
                 let len = buf.len() as u64;
                 if len > 0 {
-                    f.write_all(buf)?;
+                    write_fs(f, self.len, buf)?;
                     self.len += len;
                 }
             }
@@ -305,7 +305,7 @@ impl BodySink {
                     v.push(Bytes::copy_from_slice(buf));
                 }
                 SinkState::FsWrite(ref mut f) => {
-                    f.write_all(buf)?;
+                    write_fs(f, self.len, buf)?;
                 }
             }
             self.len += len;
@@ -365,6 +365,16 @@ impl BodySink {
     }
 }
 
+// Write all of buf to the end of file, currently of the specified length. On
+// error, return the file to that length, so that no part of buf is retained.
+fn write_fs(file: &mut File, len: u64, buf: &[u8]) -> Result<(), io::Error> {
+    file.write_all(buf).or_else(|e| {
+        file.set_len(len)?;
+        file.seek(SeekFrom::Start(len))?;
+        Err(e)
+    })
+}
+
 impl Default for BodySink {
     fn default() -> BodySink { BodySink::empty() }
 }
-- 
2.43.0


From e6186b7af682556aa17cde3f5ade807299025613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:50 +0000
Subject: [PATCH 05/24] fix: don't fail on memory advice for unaligned memory
 maps

A body mapped from a ReadSlice, as with a large body of a BARC record, doesn't
generally start at a page boundary. The system then refuses memory access
advice and writing or streaming such a body failed. Treat the advice as the
optimization that it is.
---
 body-image-futio/src/mem_map_buf.rs | 10 +++++-----
 body-image-futio/src/stream.rs      |  2 +-
 body-image/src/_mem_handle_ext.rs   |  6 ++++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/body-image-futio/src/mem_map_buf.rs b/body-image-futio/src/mem_map_buf.rs
index 7d02cf9..283ca0a 100644
--- a/body-image-futio/src/mem_map_buf.rs
+++ b/body-image-futio/src/mem_map_buf.rs
@@ -1,4 +1,3 @@
-use std::io;
 use std::ops::Deref;
 
 use bytes::Buf;
@@ -40,13 +39,14 @@ impl MemMapBuf {
     }
 
     /// Advise that we will be sequentially accessing the memory map region,
-    /// and that aggressive read-ahead is warranted.
-    pub(crate) fn advise_sequential(&self) -> Result<(), io::Error> {
-        let _new_advice = self.mm.advise(MemAdvice::Sequential)?;
+    /// and that aggressive read-ahead is warranted. Failure is ignored, as
+    /// advice isn't possible for a region that doesn't start on a page
+    /// boundary.
+    pub(crate) fn advise_sequential(&self) {
+        let _new_advice = self.mm.advise(MemAdvice::Sequential);
         #[cfg(unix)] {
             debug!("MemMapBuf advise Sequential, obtained {:?}", _new_advice);
         }
-        Ok(())
     }
 }
 
diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index 9b1478b..f61b384 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -64,7 +64,7 @@ impl OutputBuf for UniBodyBuf {
     #[cfg(feature = "mmap")]
     fn from_mmap(mmap: MemHandle<Mmap>) -> Result<Self, io::Error> {
         let buf = MemMapBuf::new(mmap);
-        buf.advise_sequential()?;
+        buf.advise_sequential();
         let _b = buf.chunk()[0];
         debug!("MemMap prepared for sequential read (len: {})", buf.remaining());
         Ok(UniBodyBuf::from_mmap(buf))
diff --git a/body-image/src/_mem_handle_ext.rs b/body-image/src/_mem_handle_ext.rs
index b54ae66..ee0c866 100644
--- a/body-image/src/_mem_handle_ext.rs
+++ b/body-image/src/_mem_handle_ext.rs
@@ -19,7 +19,9 @@ impl<T> MemHandleExt for MemHandle<T>
         where F: FnOnce() -> Result<R, S>,
               S: From<MemAdviseError>
     {
-        let _new_advice = self.advise(advice)?;
+        // Advice is an optimization only, and isn't possible for a region that
+        // doesn't start on a page boundary, so don't fail on error.
+        let _new_advice = self.advise(advice);
 
         #[cfg(unix)]
         {
@@ -28,7 +30,7 @@ impl<T> MemHandleExt for MemHandle<T>
         }
 
         let res = f();
-        self.advise(MemAdvice::Normal)?;
+        self.advise(MemAdvice::Normal).ok();
         res
     }
 }
-- 
2.43.0


From 038c65da9e01da66688124a88fa4836e15334ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:31 +0000
Subject: [PATCH 06/24] fix: report malformed records as errors rather than
 panic on read

A record head with lengths too short for its parts, or a header block that
ends before its stated length, hit assertions or integer underflow in the
reader. Return an error for these instead.
---
 barc/src/lib.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..224cb91 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -867,7 +867,9 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
+        let body_len = rhead.len
+            .checked_sub(fin.tell() - start - (V2_HEAD_SIZE as u64))
+            .ok_or(BarcError::ReadInvalidRecHead)?;
 
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
@@ -1016,7 +1018,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1050,7 +1054,11 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
             let mut hmap = http::HeaderMap::with_capacity(heads.len());
-            assert_eq!(size, buf.len());
+            if size != buf.len() {
+                return Err(BarcError::InvalidHeader(
+                    "header block ends early".into()
+                ));
+            }
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
@@ -1078,7 +1086,9 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1148,7 +1158,9 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
     let offset = rp.tell();
 
     // Seek past the body, as if read.
-- 
2.43.0


From b28232ade85cdf6af811604a9d0475fc739821b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:33 +0000
Subject: [PATCH 07/24] fix: don't advance barc reader position on failed read

The offset is documented to be advanced by successful reads only. A reader
seeing an incomplete record head of a concurrent writer would otherwise not
find the record when reading again.
---
 barc/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 224cb91..50b4f75 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -828,9 +828,21 @@ impl BarcReader {
     /// buffered in a file, or deferred via a `ReadSlice`.
     pub fn read(&mut self, tune: &Tunables)
         -> Result<Option<Record>, BarcError>
+    {
+        let start = self.file.tell();
+        let res = self.read_next(start, tune);
+
+        // Only advance past a complete record
+        if !matches!(res, Ok(Some(_))) {
+            self.file.seek(SeekFrom::Start(start))?;
+        }
+        res
+    }
+
+    fn read_next(&mut self, start: u64, tune: &Tunables)
+        -> Result<Option<Record>, BarcError>
     {
         let fin = &mut self.file;
-        let start = fin.tell();
 
         let rhead = match read_record_head(fin) {
             Ok(Some(rh)) => rh,
@@ -842,9 +854,8 @@ impl BarcReader {
 
         // With a concurrent writer, its possible to see an incomplete,
         // Reserved record head, followed by an empty or partial record
-        // payload.  In this case, seek back to start and return None.
+        // payload.  In this case, return None (caller seeks back to start).
         if rec_type == RecordType::Reserved {
-            fin.seek(SeekFrom::Start(start))?;
             return Ok(None);
         }
 
-- 
2.43.0


From 76bc983d62bea32aed6b8cade1a2fd89d14391b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:35 +0000
Subject: [PATCH 08/24] fix: error on read of truncated bodies beyond the RAM
 limit

A body deferred to the barc file, or decompressed to a temporary file, was
returned short or unreadable when the file ends early. This is already an
UnexpectedEof error for bodies read to RAM.
---
 barc/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 50b4f75..59f1b6c 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1149,7 +1149,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
@@ -1174,8 +1174,10 @@ fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
     }
     let offset = rp.tell();
 
-    // Seek past the body, as if read.
-    rp.seek(SeekFrom::Current(len as i64))?;
+    // Seek past the body, as if read, but do read its terminator, so that a
+    // truncated body is an error here, as it is when read to RAM.
+    rp.seek(SeekFrom::Current(len as i64 - 2))?;
+    rp.read_exact(&mut [0u8; 2])?;
 
     let rslice = rp.subslice(offset, offset + len - 2); // - CRLF
 
-- 
2.43.0


From 9634ca4f7536809229ae182817036507d63cb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:37 +0000
Subject: [PATCH 09/24] fix: read header blocks of more than 128 headers

The writer has no such limit, so these records could be written, but not be
read back.
---
 barc/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 59f1b6c..8191019 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -593,6 +593,10 @@ impl Default for RecordType {
 
 const CRLF: &[u8] = b"\r\n";
 
+// Maximum number of headers in a block, on read. A `HeaderMap` panics beyond
+// this number of distinct names.
+const MAX_HEADERS: usize = 24_576;
+
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
@@ -1055,12 +1059,13 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
-    let mut headbuf = [httparse::EMPTY_HEADER; 128];
-
-    // FIXME: httparse will return TooManyHeaders if headbuf isn't
-    // large enough. Hyper 0.11.15 allocates 100, so 128 is room for
-    // _even more_ (sigh). Might be better to just replace this with
-    // our own parser, as the grammar isn't particularly complex.
+    // httparse will return TooManyHeaders if headbuf isn't large enough, so
+    // allow for a header per line, up to what a HeaderMap may hold.
+    let lines = buf.iter().filter(|b| **b == b'\n').count();
+    let mut headbuf = vec![
+        httparse::EMPTY_HEADER;
+        cmp::min(lines, MAX_HEADERS)
+    ];
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
-- 
2.43.0


From b4ae8f2847062db96ac7eb42ccf8d5601c5e7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:39 +0000
Subject: [PATCH 10/24] fix: truncate partial record on failed barc write

The reserved head and partial record otherwise remain in the file. Sequential
reads stop there, and never reach any records written later.
---
 barc/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 8191019..7faecf9 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -666,8 +666,27 @@ impl<'a> BarcWriter<'a> {
         // BarcFile::writer() guarantees Some(File)
         let file: &mut File = self.guard.as_mut().unwrap();
 
-        // Write initial head as reserved place holder
+        // Write initial head as reserved place holder, from end of file
         let start = file.seek(SeekFrom::End(0))?;
+        let res = Self::write_at(file, start, rec, strategy);
+
+        // On failure, drop whatever has been written. A reserved head or
+        // partial record would otherwise end sequential reads for good.
+        if res.is_err() {
+            if let Err(e) = file.set_len(start) {
+                warn!("On set_len after failed write: {}", e);
+            }
+        }
+        res
+    }
+
+    fn write_at(
+        file: &mut File,
+        start: u64,
+        rec: &dyn MetaRecorded,
+        strategy: &dyn CompressStrategy)
+        -> Result<u64, BarcError>
+    {
         write_record_head(file, &V2_RESERVE_HEAD)?;
         file.flush()?;
 
-- 
2.43.0


From e7de0e16f5b6830da138ba2f7fdbfa947fea061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:41 +0000
Subject: [PATCH 11/24] fix: report errors writing the final brotli output

The encoder writes its final output when dropped, ignoring any write error,
so the write of an incomplete record was reported as successful.
---
 barc/src/compress.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..b5e2a53 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -376,7 +376,32 @@ enum Encoder<'a> {
     Plain(&'a File),
     Gzip(Box<GzEncoder<&'a File>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<ErrorTrap<'a>>>)
+}
+
+// Retains the kind of the last write error. The brotli encoder writes its
+// final output on drop or `into_inner`, without reporting any error.
+#[cfg(feature = "brotli")]
+struct ErrorTrap<'a> {
+    file: &'a File,
+    error: Option<io::ErrorKind>,
+}
+
+#[cfg(feature = "brotli")]
+impl<'a> Write for ErrorTrap<'a> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        let res = self.file.write(buf);
+        if let Err(ref e) = res {
+            if e.kind() != io::ErrorKind::Interrupted {
+                self.error = Some(e.kind());
+            }
+        }
+        res
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.file.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -404,7 +429,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                ErrorTrap { file, error: None },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -434,6 +459,11 @@ impl<'a> EncodeWrapper<'a> {
             #[cfg(feature = "brotli")]
             Encoder::Brotli(mut bcw) => {
                 bcw.flush()?;
+                let mut out = bcw.into_inner();
+                if let Some(kind) = out.error {
+                    return Err(io::Error::from(kind).into());
+                }
+                out.flush()?;
             }
         }
         Ok(())
-- 
2.43.0


From f3ac48d08bb2a25e8a13acd4b7119a687bbd2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:10 +0000
Subject: [PATCH 12/24] fix: convert all known versions and encodings from
 Record to Dialog

A Dialog with an identity or compress decoded encoding, or of HTTP/3.0,
converts to a Record, but the Record failed to convert back. Identity is set
by decode_res_body, so any such dialog read from a barc file was affected.
---
 barc/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 7faecf9..c79adf6 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
@@ -521,6 +522,8 @@ impl TryFrom<Record> for Dialog {
                         "deflate" => Encoding::Deflate,
                         "gzip"    => Encoding::Gzip,
                         "br"      => Encoding::Brotli,
+                        "compress" => Encoding::Compress,
+                        "identity" => Encoding::Identity,
                         _ => {
                             return Err(DialogConvertError::InvalidResDecoded(
                                 enc.to_string()
-- 
2.43.0


From f4b28672299334597c51d12584e91ceb0b1cea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:23 +0000
Subject: [PATCH 13/24] fix: count records from the first one selected in barc
 cat and cp

With --index, the records passed over were counted as well, so --index 1
--count 1 selected nothing. The offset printed by cat for the first record
was that of the file start, and one record more than asked for was read, so
that damage after the selected records was reported as a failure.
---
 barc-cli/src/main.rs | 47 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..24421f3 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -14,7 +14,7 @@ use clap::{
 
 use body_image::{Tunables, RequestRecorded, Recorded};
 use barc::{
-    BarcFile,
+    BarcFile, BarcReader,
     CompressStrategy, GzipCompressStrategy, NoCompressStrategy,
     write_body, write_headers, MetaRecorded
 };
@@ -227,14 +227,15 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     }
     let fout = &mut io::stdout();
     let nl = true;
-    let mut i = 0;
-    let mut offset = reader.offset();
-    while let Some(rec) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
-        }
-        i += 1;
-        if i > count { break; }
+    if let StartPos::Index(s) = *start {
+        skip(&mut reader, s, &tune)?;
+    }
+    for _ in 0..count {
+        let offset = reader.offset();
+        let rec = match reader.read(&tune)? {
+            Some(rec) => rec,
+            None => break
+        };
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -242,8 +243,6 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
         if parts.req_body { write_body   (fout, nl, rec.req_body())?; }
         if parts.res_head { write_headers(fout, nl, rec.res_headers())?; }
         if parts.res_body { write_body   (fout, nl, rec.res_body())?; }
-
-        offset = reader.offset();
     }
 
     Ok(())
@@ -270,19 +269,29 @@ fn cp(
     let bfout = BarcFile::new(barc_out);
     let mut writer = bfout.writer()?;
 
-    let mut i = 0;
-    while let Some(record) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
-        }
-        i += 1;
-        if i > count { break; }
-        writer.write(&record, strategy)?;
+    if let StartPos::Index(s) = *start {
+        skip(&mut reader, s, &tune)?;
+    }
+    for _ in 0..count {
+        match reader.read(&tune)? {
+            Some(record) => writer.write(&record, strategy)?,
+            None => break
+        };
     }
 
     Ok(())
 }
 
+// Read past `n` records, or until EOF.
+fn skip(reader: &mut BarcReader, n: usize, tune: &Tunables)
+    -> Result<(), Flaw>
+{
+    for _ in 0..n {
+        if reader.read(tune)?.is_none() { break; }
+    }
+    Ok(())
+}
+
 // Container for dynamically generated help text, to appease Clap's str
 // reference help text lifetimes.
 struct VarHelp {
-- 
2.43.0


From 5e743eab56aabd9069e96b488447da57b590a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:39 +0000
Subject: [PATCH 14/24] fix: accept options before the file names in barc cp

An option with a value ahead of the file names, as in 'barc cp --count 1
in.barc out.barc', made the first file name be taken as the output file and
the second one be rejected. Take all file names as one argument.
---
 barc-cli/src/main.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 24421f3..63a49a5 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -67,7 +67,7 @@ fn run() -> Result<(), Flaw> {
         "cat" => {
             let parts = part_flags(subm);
             let files = subm.values_of("file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let (start, count) = filter_flags(subm, files.len())?;
             for f in files {
                 cat(f, &start, count, &parts)?;
             }
@@ -75,9 +75,9 @@ fn run() -> Result<(), Flaw> {
         }
         "cp" => {
             let cs = compress_flags(subm)?;
-            let files = subm.values_of("file").unwrap();
-            let fout = subm.value_of("out-file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let mut files = subm.values_of("file").unwrap();
+            let fout = files.next_back().unwrap(); // 2 or more required
+            let (start, count) = filter_flags(subm, files.len())?;
             for fin in files {
                 cp(fin, fout, &start, count, cs.as_ref())?;
             }
@@ -147,9 +147,9 @@ fn compress_flags(matches: &ArgMatches<'_>)
 }
 
 // Parse filter flags and return (StartPos, count) or error.
-fn filter_flags(matches: &ArgMatches<'_>) -> Result<(StartPos, usize), Flaw>
+fn filter_flags(matches: &ArgMatches<'_>, files_len: usize)
+    -> Result<(StartPos, usize), Flaw>
 {
-    let files_len = matches.values_of("file").unwrap().len();
     let mut start = StartPos::default();
     let mut count = usize::max_value();
     if let Some(v) = matches.value_of("index") {
@@ -418,6 +418,7 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
         .setting(AppSettings::DeriveDisplayOrder)
         .setting(AppSettings::DontDelimitTrailingValues)
         .about("Copy BARC records from input(s) to an output file")
+        .usage("barc cp [FLAGS] [OPTIONS] <BARC-IN-FILE>... <BARC-OUT-FILE>")
         .after_help(
             "By default, copies all records from the input file(s) and appends \
              to the output file. The options (--offset, --index, --count) can \
@@ -450,15 +451,15 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
                 .long("brotli")
                 .conflicts_with("gzip")
                 .help("Use Brotli compression strategy (brotli feature)"),
+            // Clap takes the first value after an option for the last
+            // positional argument, so these can't be two arguments.
             Arg::with_name("file")
                 .required(true)
                 .multiple(true)
-                .value_name("BARC-IN-FILE")
-                .help("BARC file path(s) from which to read"),
-            Arg::with_name("out-file")
-                .required(true)
-                .value_name("BARC-OUT-FILE")
-                .help("BARC file path to create/append")
+                .min_values(2)
+                .value_name("BARC-FILE")
+                .help("BARC file path(s) from which to read, and last, the \
+                       BARC file path to create/append")
         ]);
 
     App::new("barc")
-- 
2.43.0


From c197b4d258092de7d3b2d9daddd5e6751de92215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:40 +0000
Subject: [PATCH 15/24] fix: refuse to copy a BARC file to itself by another
 path

'barc cp a.barc ./a.barc' kept reading the records it was appending, until
the disk was full.
---
 barc-cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 63a49a5..f740042 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -4,6 +4,7 @@
 
 use std::error::Error as StdError;
 use std::fmt;
+use std::fs;
 use std::io;
 use std::process;
 
@@ -257,7 +258,7 @@ fn cp(
     strategy: &dyn CompressStrategy)
     -> Result<(), Flaw>
 {
-    if barc_in == barc_out {
+    if barc_in == barc_out || is_same_file(barc_in, barc_out) {
         quit!("BARC input and output file are the same: {}", barc_in);
     }
     let bfin = BarcFile::new(barc_in);
@@ -282,6 +283,14 @@ fn cp(
     Ok(())
 }
 
+// Return true if both paths exist and lead to the same file.
+fn is_same_file(a: &str, b: &str) -> bool {
+    match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false
+    }
+}
+
 // Read past `n` records, or until EOF.
 fn skip(reader: &mut BarcReader, n: usize, tune: &Tunables)
     -> Result<(), Flaw>
-- 
2.43.0


From 852cb6412c0305c5346a641a4e41d7505d697c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:07 +0000
Subject: [PATCH 16/24] fix: report the remaining length as size hint of body
 streams

The size hint of http_body::Body is for the data that remains, but the
total length was returned, also after some or all of it was streamed.
---
 body-image-futio/src/stream.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index f61b384..a87d026 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -334,7 +334,7 @@ impl<B, BA> http_body::Body for AsyncBodyImage<B, BA>
     }
 
     fn size_hint(&self) -> http_body::SizeHint {
-        http_body::SizeHint::with_exact(self.len)
+        http_body::SizeHint::with_exact(self.len - self.consumed)
     }
 
     fn is_end_stream(&self) -> bool {
@@ -460,7 +460,7 @@ pub struct DispatchBodyImage<B>
     where B: OutputBuf
 {
     state: DispatchState<B>,
-    len: u64,
+    len: u64, // remaining
 }
 
 type DispatchReturn<B> = (
@@ -488,6 +488,17 @@ impl<B> StreamWrapper for DispatchBodyImage<B>
     }
 }
 
+impl<B> DispatchBodyImage<B>
+    where B: OutputBuf
+{
+    // Subtract any item about to be returned from the remaining length.
+    fn update_len(&mut self, res: &Poll<Option<Result<B, io::Error>>>) {
+        if let Poll::Ready(Some(Ok(ref b))) = *res {
+            self.len -= b.remaining() as u64;
+        }
+    }
+}
+
 impl<B> Stream for DispatchBodyImage<B>
     where B: OutputBuf
 {
@@ -511,6 +522,7 @@ impl<B> Stream for DispatchBodyImage<B>
                     // Recurse for correct waking
                     return Pin::new(this).poll_next(cx);
                 }
+                this.update_len(&res);
                 res
             }
             DispatchState::Dispatch(ref mut db) => {
@@ -521,6 +533,7 @@ impl<B> Stream for DispatchBodyImage<B>
                 };
                 debug_assert_eq!(ob.arbiter.state(), Blocking::Void);
                 this.state = DispatchState::Image(Some(ob));
+                this.update_len(&res);
                 res
             }
         }
-- 
2.43.0


From 27afeda6c58047a0b848db941afab502c93bbb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:09 +0000
Subject: [PATCH 17/24] fix: fail body streams on a file that ends early

A file shorter than the body length ended the stream as if complete, so a
truncated body was passed on without any error.
---
 body-image-futio/src/stream.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/body-image-futio/src/stream.rs b/body-image-futio/src/stream.rs
index a87d026..7731cf6 100644
--- a/body-image-futio/src/stream.rs
+++ b/body-image-futio/src/stream.rs
@@ -187,7 +187,13 @@ impl<B, BA> AsyncBodyImage<B, BA>
                 )};
                 loop {
                     match rs.read(&mut b[..rlen]) {
-                        Ok(0) => break Poll::Ready(None),
+                        Ok(0) => {
+                            // End the stream after this error
+                            self.consumed = self.len;
+                            break Poll::Ready(Some(Err(
+                                io::ErrorKind::UnexpectedEof.into()
+                            )));
+                        }
                         Ok(len) => {
                             unsafe { buf.advance_mut(len); }
                             debug!("read chunk (len: {})", len);
-- 
2.43.0


From cfc790ef9ad7d747b986c2c4858290f6289f775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:45 +0000
Subject: [PATCH 18/24] fix: match encoding names without regard to case

Names of content and transfer encodings are case-insensitive. A body with
'Content-Encoding: GZIP' was left compressed, yet marked as decoded.
---
 body-image-futio/src/decode.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index f225e75..aec1020 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -53,7 +53,7 @@ fn parse_encodings<'a>(
         Ok(encs) => for av in encs.iter().rev() {
             // check in reverse, since these are in order of application
             // and we want the last
-            match *av {
+            match normalize(av) {
                 HyEncoding::Identity => {} //ignore
                 HyEncoding::Chunked  => chunked = true,
                 HyEncoding::Deflate  => res.push(Encoding::Deflate),
@@ -72,11 +72,22 @@ fn parse_encodings<'a>(
     chunked
 }
 
+// Encoding names are case-insensitive, but hyperx only knows these by lower
+// case.
+fn normalize(encoding: &HyEncoding) -> HyEncoding {
+    if let HyEncoding::EncodingExt(ref s) = *encoding {
+        if let Ok(e) = s.to_ascii_lowercase().parse() {
+            return e;
+        }
+    }
+    encoding.clone()
+}
+
 /// Return true if the chunked Transfer-Encoding can be found in the headers.
 pub fn find_chunked(headers: &http::HeaderMap) -> bool {
     if let Ok(v) = headers.decode::<TransferEncoding>() {
         for av in v.iter() {
-            if let HyEncoding::Chunked = *av { return true }
+            if let HyEncoding::Chunked = normalize(av) { return true }
         }
     }
     false
-- 
2.43.0


From 6d9bb01159169dd21414ba97aa7e832bc274a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:46 +0000
Subject: [PATCH 19/24] fix: only mark a body as identity when no encoding
 remains

A body with an unknown encoding, or with more than the one compression that
is decoded, was marked as being its plain representation all the same.
---
 body-image-futio/src/decode.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index aec1020..3bbadd0 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -17,35 +17,47 @@ use crate::FutioError;
 /// The `Chunked` encoding will be the first value if found. At most one
 /// compression encoding will be the last value if found.
 pub fn find_encodings(headers: &http::HeaderMap) -> Vec<Encoding> {
+    find_all_encodings(headers).0
+}
+
+// Return list as per `find_encodings`, and true if there are no other
+// encodings beyond this list.
+fn find_all_encodings(headers: &http::HeaderMap) -> (Vec<Encoding>, bool) {
     let mut res = Vec::with_capacity(2);
+    let mut all = true;
 
     // Only consider chunked from transfer-encoding
     let chunked = parse_encodings(
         &headers.get_all(http::header::TRANSFER_ENCODING),
-        &mut res);
+        &mut res,
+        &mut all);
 
     parse_encodings(
         &headers.get_all(http::header::CONTENT_ENCODING),
-        &mut res);
+        &mut res,
+        &mut all);
 
     if res.len() > 1 {
         warn!("Found multiple compression encodings, \
                using first (reversed): {:?}",
               res);
         res.truncate(1);
+        all = false;
     }
 
     if chunked {
         res.insert(0, Encoding::Chunked);
     }
-    res
+    (res, all)
 }
 
 // Parse *-encoding header values, pushing compression encodings to res, and
-// return if "chunked" was found, logging any parse errors as warnings.
+// return if "chunked" was found, logging any parse errors as warnings. Clears
+// all, if anything was found that is not known.
 fn parse_encodings<'a>(
     raw: &http::header::GetAll<'a, http::header::HeaderValue>,
-    res: &mut Vec<Encoding>)
+    res: &mut Vec<Encoding>,
+    all: &mut bool)
     -> bool
 {
     let mut chunked = false;
@@ -62,11 +74,15 @@ fn parse_encodings<'a>(
                                      => res.push(Encoding::Gzip),
                 HyEncoding::Brotli   => res.push(Encoding::Brotli),
                 HyEncoding::Compress => res.push(Encoding::Compress),
-                _ => warn!("Found unknown encoding: {:?}", av),
+                _ => {
+                    warn!("Found unknown encoding: {:?}", av);
+                    *all = false;
+                }
             }
         }
         Err(e) => {
             warn!("{} on header {:?}", e, raw.iter().collect::<Vec<_>>());
+            *all = false;
         }
     }
     chunked
@@ -103,7 +119,7 @@ pub fn find_chunked(headers: &http::HeaderMap) -> bool {
 pub fn decode_res_body(dialog: &mut Dialog, tune: &Tunables)
     -> Result<bool, FutioError>
 {
-    let mut encodings = find_encodings(dialog.res_headers());
+    let (mut encodings, all) = find_all_encodings(dialog.res_headers());
 
     let compression = encodings.last().and_then(|e| {
         if *e != Encoding::Chunked { Some(*e) } else { None }
@@ -118,7 +134,9 @@ pub fn decode_res_body(dialog: &mut Dialog, tune: &Tunables)
 
     // Positively indicate that we've checked, and if necessary, successfully
     // decoded body to the associated raw Content-Type representation.
-    encodings.push(Encoding::Identity);
+    if all {
+        encodings.push(Encoding::Identity);
+    }
 
     if let Some(b) = new_body {
         dialog.set_res_body_decoded(b, encodings);
-- 
2.43.0


From 7ab72300c3460554d5ac4a0114b1f4eea1a7b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:48 +0000
Subject: [PATCH 20/24] fix: decode all members of a gzip body

A gzip stream may consist of several members. All but the first were
dropped without an error, giving a truncated body.
---
 body-image-futio/src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index 3bbadd0..43f1aaf 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -1,6 +1,6 @@
 //! Implementaiton module for finding encodings and decompression
 
-use flate2::read::{DeflateDecoder, GzDecoder};
+use flate2::read::{DeflateDecoder, MultiGzDecoder};
 use hyperx::header::{
     ContentEncoding, Encoding as HyEncoding,
     Header, TransferEncoding, TypedHeaders
@@ -158,7 +158,7 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     let reader = body.reader();
     match compression {
         Encoding::Gzip => {
-            let mut decoder = GzDecoder::new(reader);
+            let mut decoder = MultiGzDecoder::new(reader);
             let len_est = body.len() * u64::from(tune.size_estimate_gzip());
             Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
         }
-- 
2.43.0


From 1c84d11f6aafe83a569746e39113afe119eb49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:09 +0000
Subject: [PATCH 21/24] fix: start a body at the beginning of a partly read
 slice

An image made from a ReadSlice that had been read from kept the position of
that slice. Taking the image apart, as the async streams do, then gave only
the remaining bytes, less than the length of the image.
---
 body-image/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 6a913a5..a87b0b6 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -736,6 +736,8 @@ fn image_from_file(file: File, length: u64) -> BodyImage {
 fn image_from_read_slice(rslice: ReadSlice) -> BodyImage {
     let len = rslice.len();
     if len > 0 {
+        // Positioned at the start, even if `rslice` has been read from.
+        let rslice = rslice.subslice(0, len);
         BodyImage { state: ImageState::FsReadSlice(rslice), len }
     } else {
         BodyImage::empty()
-- 
2.43.0


From e9540ec5acb2303f70e469db4f3113c9d85994dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:09 +0000
Subject: [PATCH 22/24] fix: report a body file that ends early when writing it
 out

BodyImage::write_to returned the full body length even if the underlying file
was shorter and fewer bytes were written. An archive record written from such
a body was corrupt, without any error.
---
 body-image/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index a87b0b6..a92604a 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -697,6 +697,7 @@ impl BodyImage {
     pub fn write_to<W>(&self, out: &mut W) -> Result<u64, BodyError>
         where W: Write + ?Sized
     {
+        let mut len = self.len;
         match self.state {
             ImageState::Ram(ref v) => {
                 for b in v {
@@ -709,14 +710,17 @@ impl BodyImage {
             }
             ImageState::FsRead(ref f) => {
                 let mut rs = ReadSlice::new(f.clone(), 0, self.len);
-                io::copy(&mut rs, out)?;
+                len = io::copy(&mut rs, out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-                io::copy(&mut rs, out)?;
+                len = io::copy(&mut rs, out)?;
             }
         }
-        Ok(self.len)
+        if len < self.len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
+        Ok(len)
     }
 }
 
-- 
2.43.0


From b91df9b75633582c00dd075dcf1737b3a277970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:48:00 +0000
Subject: [PATCH 23/24] fix: retry interrupted reads of a gzip compressed
 record

The gzip decoder loses its state on an interrupted read and then signals EOF.
Reading the record resumed after such an error, so the response body was cut
short without any error, or the read failed.
---
 barc/src/compress.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index b5e2a53..67ccd62 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -493,18 +493,35 @@ impl<'a> Write for EncodeWrapper<'a> {
 /// Wrapper holding a decoder (providing `Read`) on a `Take` limited
 /// to a record of a BARC file.
 pub(crate) enum DecodeWrapper {
-    Gzip(Box<GzDecoder<ReadSlice>>),
+    Gzip(Box<GzDecoder<RetryRead>>),
     #[cfg(feature = "brotli")]
     Brotli(Box<brotli::Decompressor<ReadSlice>>),
 }
 
+// Retries interrupted reads. The gzip decoder doesn't retain its state on such
+// an error, and would signal EOF if then read again.
+pub(crate) struct RetryRead(ReadSlice);
+
+impl Read for RetryRead {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        loop {
+            match self.0.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                res => return res,
+            }
+        }
+    }
+}
+
 impl DecodeWrapper {
     pub(crate) fn new(comp: Compression, r: ReadSlice, _buf_size: usize)
         -> Result<DecodeWrapper, BarcError>
     {
         match comp {
             Compression::Gzip => {
-                Ok(DecodeWrapper::Gzip(Box::new(GzDecoder::new(r))))
+                Ok(DecodeWrapper::Gzip(Box::new(
+                    GzDecoder::new(RetryRead(r))
+                )))
             }
             #[cfg(feature = "brotli")]
             Compression::Brotli => {
-- 
2.43.0


From 66544745bf5ceac5583f1331f7ea4e946a07cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:48:00 +0000
Subject: [PATCH 24/24] fix: retry interrupted reads when decoding a gzip body

The gzip decoder loses its state on an interrupted read and then signals EOF.
Decoding resumed after such an error, so the decoded body was cut short
without any error.
---
 body-image-futio/src/decode.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index 43f1aaf..99edba2 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -1,5 +1,8 @@
 //! Implementaiton module for finding encodings and decompression
 
+use std::io;
+use std::io::Read;
+
 use flate2::read::{DeflateDecoder, MultiGzDecoder};
 use hyperx::header::{
     ContentEncoding, Encoding as HyEncoding,
@@ -7,7 +10,9 @@ use hyperx::header::{
 };
 use tao_log::{debug, warn};
 
-use body_image::{BodyImage, Dialog, Encoding, Recorded, Tunables};
+use body_image::{
+    BodyImage, BodyReader, Dialog, Encoding, Recorded, Tunables
+};
 
 use crate::FutioError;
 
@@ -148,6 +153,21 @@ pub fn decode_res_body(dialog: &mut Dialog, tune: &Tunables)
     }
 }
 
+// Retries interrupted reads. The gzip decoder doesn't retain its state on such
+// an error, and would signal EOF if then read again.
+struct RetryRead<'a>(BodyReader<'a>);
+
+impl<'a> Read for RetryRead<'a> {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        loop {
+            match self.0.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                res => return res,
+            }
+        }
+    }
+}
+
 /// Decompress the provided body of any supported compression `Encoding`,
 /// using `Tunables` for buffering and the final returned `BodyImage`. If the
 /// encoding is not supported (e.g. `Chunked` or `Brotli`, without the feature
@@ -158,7 +178,7 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     let reader = body.reader();
     match compression {
         Encoding::Gzip => {
-            let mut decoder = MultiGzDecoder::new(reader);
+            let mut decoder = MultiGzDecoder::new(RetryRead(reader));
             let len_est = body.len() * u64::from(tune.size_estimate_gzip());
             Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
         }
-- 
2.43.0

