From 87f8d5f1e29793c44945f05a696184a888682ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:45 +0000
Subject: [PATCH 01/24] fix: bound buffering and enforce max_body across
 read_from RAM to file switch

The RAM read loop tested BytesMut::remaining_mut, which is effectively
unlimited, so the whole source was read into one buffer before any limit
was checked. Test the remaining allocated capacity instead.

After switching to a file, the size already written was not counted
towards max_body. Start from the current body length.
---
 body-image/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..a729311 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -649,7 +649,7 @@ impl BodyImage {
                 }
                 unsafe { buf.advance_mut(len); }
 
-                if buf.remaining_mut() < 1024 {
+                if buf.capacity() - buf.len() < 1024 {
                     break 'fill;
                 }
             }
@@ -740,7 +740,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From c60242ba83426485e35df0021c8af087c37aefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:17 +0000
Subject: [PATCH 02/24] fix: keep mem_map and write_to within the declared
 length of a file body

An image over a file longer than its length wrote out and mapped the
whole file, while its reader gave only the declared length. Limit both
to the declared length.
---
 body-image/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index a729311..c71691b 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,14 +53,15 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
 
 #[cfg(feature = "mmap")]
 use {
-    memmap::Mmap,
+    std::cmp,
+    memmap::{Mmap, MmapOptions},
     olio::mem::{MemAdvice, MemHandle},
     _mem_handle_ext::MemHandleExt,
 };
@@ -522,7 +523,8 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                let len = cmp::min(self.len, file.metadata()?.len());
+                unsafe { MmapOptions::new().len(len as usize).map(&file) }?
             }
             ImageState::FsReadSlice(ref rslice) => {
                 rslice.mem_map()?
@@ -675,7 +677,7 @@ impl BodyImage {
     }
 
     /// Write self to `out` and return length. If `FsRead` this is performed
-    /// using `std::io::copy` with `ReadPos` as input.
+    /// using `std::io::copy` with `ReadSlice` as input.
     ///
     /// The `Write` is passed by reference for backward compatibility with its
     /// original non-generic form as `&mut dyn Write`. [C-RW-VALUE] prefers
@@ -698,8 +700,8 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                let mut rs = ReadSlice::new(f.clone(), 0, self.len);
+                io::copy(&mut rs, out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-- 
2.43.0


From 2feada27a8a4cfd7a9688f77bffb346569ed4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:19 +0000
Subject: [PATCH 03/24] fix: do not fail on refused memory advice for mapped
 bodies

Bodies mapped from a slice of a file usually do not start at a page
boundary. Sequential access advice is refused for these, which failed
writing out and streaming such bodies.
---
 body-image-futio/src/mem_map_buf.rs | 4 +++-
 body-image/src/_mem_handle_ext.rs   | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/body-image-futio/src/mem_map_buf.rs b/body-image-futio/src/mem_map_buf.rs
index 7d02cf9..088d3af 100644
--- a/body-image-futio/src/mem_map_buf.rs
+++ b/body-image-futio/src/mem_map_buf.rs
@@ -42,7 +42,9 @@ impl MemMapBuf {
     /// Advise that we will be sequentially accessing the memory map region,
     /// and that aggressive read-ahead is warranted.
     pub(crate) fn advise_sequential(&self) -> Result<(), io::Error> {
-        let _new_advice = self.mm.advise(MemAdvice::Sequential)?;
+        // Advice is an optimization and may be refused, e.g. for regions which
+        // are not page aligned. That is no reason to fail.
+        let _new_advice = self.mm.advise(MemAdvice::Sequential);
         #[cfg(unix)] {
             debug!("MemMapBuf advise Sequential, obtained {:?}", _new_advice);
         }
diff --git a/body-image/src/_mem_handle_ext.rs b/body-image/src/_mem_handle_ext.rs
index b54ae66..874a746 100644
--- a/body-image/src/_mem_handle_ext.rs
+++ b/body-image/src/_mem_handle_ext.rs
@@ -19,7 +19,9 @@ impl<T> MemHandleExt for MemHandle<T>
         where F: FnOnce() -> Result<R, S>,
               S: From<MemAdviseError>
     {
-        let _new_advice = self.advise(advice)?;
+        // Advice is an optimization and may be refused, e.g. for regions which
+        // are not page aligned. That is no reason to fail.
+        let _new_advice = self.advise(advice);
 
         #[cfg(unix)]
         {
@@ -28,7 +30,7 @@ impl<T> MemHandleExt for MemHandle<T>
         }
 
         let res = f();
-        self.advise(MemAdvice::Normal)?;
+        self.advise(MemAdvice::Normal).ok();
         res
     }
 }
-- 
2.43.0


From 3c6fc8408560fa3d8062ebadc02f460a7b7d056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:02 +0000
Subject: [PATCH 04/24] fix: read back header blocks with more than 128 headers

Records with any number of headers could be written, but reading them
back failed beyond 128 headers. Size the parse buffer by the number of
lines, limited to the capacity of HeaderMap.
---
 barc/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..e4081bc 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -1040,12 +1040,11 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
-    let mut headbuf = [httparse::EMPTY_HEADER; 128];
-
-    // FIXME: httparse will return TooManyHeaders if headbuf isn't
-    // large enough. Hyper 0.11.15 allocates 100, so 128 is room for
-    // _even more_ (sigh). Might be better to just replace this with
-    // our own parser, as the grammar isn't particularly complex.
+    // httparse will return TooManyHeaders if headbuf isn't large enough, so
+    // allow for one header per line, up to what `http::HeaderMap` can hold.
+    const MAX_HEADERS: usize = 24 * 1024;
+    let lines = buf.iter().filter(|b| **b == b'\n').count();
+    let mut headbuf = vec![httparse::EMPTY_HEADER; cmp::min(lines, MAX_HEADERS)];
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
-- 
2.43.0


From 34f035a034c9087dad96dd2d69e524f9ae6210a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:16 +0000
Subject: [PATCH 05/24] fix: return errors for malformed or truncated records

Reading a record with inconsistent head lengths, a header block that ends early or a body cut off by the end of file panicked or gave a shortened body. These now return an error.
---
 barc/src/lib.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index e4081bc..04faba8 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -867,7 +867,9 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
+        let body_len = rhead.len
+            .checked_sub(fin.tell() - start - (V2_HEAD_SIZE as u64))
+            .ok_or(BarcError::ReadInvalidRecHead)?;
 
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
@@ -1016,7 +1018,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1049,7 +1053,11 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
             let mut hmap = http::HeaderMap::with_capacity(heads.len());
-            assert_eq!(size, buf.len());
+            if size != buf.len() {
+                return Err(BarcError::InvalidHeader(
+                    "header block with unexpected end".into()
+                ));
+            }
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
@@ -1077,7 +1085,9 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1127,7 +1137,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
@@ -1147,11 +1157,15 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
     let offset = rp.tell();
 
-    // Seek past the body, as if read.
-    rp.seek(SeekFrom::Current(len as i64))?;
+    // Seek past the body, as if read, but do read its CRLF, as proof that the
+    // file isn't truncated within the body.
+    rp.seek(SeekFrom::Current(len as i64 - 2))?;
+    rp.read_exact(&mut [0u8; 2])?;
 
     let rslice = rp.subslice(offset, offset + len - 2); // - CRLF
 
-- 
2.43.0


From 81a3d6fa38ba89762a945f3a004f721b3a6f7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:41 +0000
Subject: [PATCH 06/24] fix: remove the partial record after a failed write

A failed BarcWriter::write left a reserved head and part of the payload at the end of the file. Readers stop at a reserved head, so all later records were lost to them. The file is now cut back to where the record started.
---
 barc/src/lib.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 04faba8..682b642 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -662,8 +662,31 @@ impl<'a> BarcWriter<'a> {
         // BarcFile::writer() guarantees Some(File)
         let file: &mut File = self.guard.as_mut().unwrap();
 
-        // Write initial head as reserved place holder
         let start = file.seek(SeekFrom::End(0))?;
+
+        if let Err(e) = Self::write_at(file, start, rec, strategy) {
+            // Remove the partial record, which would otherwise hide any
+            // subsequently written records from readers.
+            file.set_len(start).ok();
+            return Err(e);
+        }
+
+        // Seek to end and flush
+        file.seek(SeekFrom::End(0))?;
+        file.flush()?;
+
+        Ok(start)
+    }
+
+    // Write a new, complete record at start, the end of the file.
+    fn write_at(
+        file: &mut File,
+        start: u64,
+        rec: &dyn MetaRecorded,
+        strategy: &dyn CompressStrategy)
+        -> Result<(), BarcError>
+    {
+        // Write initial head as reserved place holder
         write_record_head(file, &V2_RESERVE_HEAD)?;
         file.flush()?;
 
@@ -686,12 +709,7 @@ impl<'a> BarcWriter<'a> {
         // Seek back and write final record head, with known size
         file.seek(SeekFrom::Start(start))?;
         write_record_head(file, &head)?;
-
-        // Seek to end and flush
-        file.seek(SeekFrom::End(0))?;
-        file.flush()?;
-
-        Ok(start)
+        Ok(())
     }
 }
 
-- 
2.43.0


From 7a8055e9792f53e23d26ed36c4eb46cb26448fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:41 +0000
Subject: [PATCH 07/24] fix: report errors on finishing a brotli compressed
 record

The brotli encoder wrote its last block on drop and ignored any error, so a write could succeed with a corrupt record.
---
 barc/src/compress.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..6076db1 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -376,7 +376,35 @@ enum Encoder<'a> {
     Plain(&'a File),
     Gzip(Box<GzEncoder<&'a File>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<KeepError<'a>>>)
+}
+
+// File writer keeping the last write error, since
+// `brotli::CompressorWriter::into_inner` ignores any errors on finish.
+#[cfg(feature = "brotli")]
+struct KeepError<'a> {
+    file: &'a File,
+    error: Option<io::Error>,
+}
+
+#[cfg(feature = "brotli")]
+impl<'a> Write for KeepError<'a> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        let res = self.file.write(buf);
+        if let Err(ref e) = res {
+            if e.kind() != io::ErrorKind::Interrupted {
+                self.error = Some(match e.raw_os_error() {
+                    Some(code) => io::Error::from_raw_os_error(code),
+                    None => e.kind().into()
+                });
+            }
+        }
+        res
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.file.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -404,7 +432,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                KeepError { file, error: None },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -434,6 +462,11 @@ impl<'a> EncodeWrapper<'a> {
             #[cfg(feature = "brotli")]
             Encoder::Brotli(mut bcw) => {
                 bcw.flush()?;
+                let mut inner = bcw.into_inner();
+                if let Some(e) = inner.error.take() {
+                    return Err(e.into());
+                }
+                inner.flush()?;
             }
         }
         Ok(())
-- 
2.43.0


From d3211c57c47e4a23fe5b0c935bb0b7899839ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:41 +0000
Subject: [PATCH 08/24] fix: keep concurrent readers from seeing a mixed record
 head

The final head replaced the reserved head in one write, of which a concurrent reader could see only the first part. Lengths are now written first and the type flag last.
---
 barc/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 682b642..391e312 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -706,7 +706,15 @@ impl<'a> BarcWriter<'a> {
                   orig_len, head.len);
         }
 
-        // Seek back and write final record head, with known size
+        // Seek back and write final record head, with known size. This is
+        // first written as still reserved, so that the last write changes
+        // only the type flag and a concurrent reader can't observe a mix of
+        // the old and new lengths.
+        file.seek(SeekFrom::Start(start))?;
+        write_record_head(file, &RecordHead {
+            rec_type: RecordType::Reserved,
+            ..head
+        })?;
         file.seek(SeekFrom::Start(start))?;
         write_record_head(file, &head)?;
         Ok(())
-- 
2.43.0


From 74a25c5f6fd9b8071038c32291e5d58e438778f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:41 +0000
Subject: [PATCH 09/24] fix: retry interrupted reads of compressed records

The gzip decoder ends after an interrupted read of its header, so that an interruption gave an empty body.
---
 barc/src/compress.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 6076db1..bed1387 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -496,15 +496,30 @@ impl<'a> Write for EncodeWrapper<'a> {
 /// Wrapper holding a decoder (providing `Read`) on a `Take` limited
 /// to a record of a BARC file.
 pub(crate) enum DecodeWrapper {
-    Gzip(Box<GzDecoder<ReadSlice>>),
+    Gzip(Box<GzDecoder<Uninterrupted>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::Decompressor<ReadSlice>>),
+    Brotli(Box<brotli::Decompressor<Uninterrupted>>),
+}
+
+// Reader retrying on `Interrupted`, which decoders may not recover from.
+pub(crate) struct Uninterrupted(ReadSlice);
+
+impl Read for Uninterrupted {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        loop {
+            match self.0.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+                res => return res
+            }
+        }
+    }
 }
 
 impl DecodeWrapper {
     pub(crate) fn new(comp: Compression, r: ReadSlice, _buf_size: usize)
         -> Result<DecodeWrapper, BarcError>
     {
+        let r = Uninterrupted(r);
         match comp {
             Compression::Gzip => {
                 Ok(DecodeWrapper::Gzip(Box::new(GzDecoder::new(r))))
-- 
2.43.0


From 6d50bb1ae8cd0e78d1340890058f1acedec08d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:01 +0000
Subject: [PATCH 10/24] fix: convert records with compress, identity and
 HTTP/3.0 back to dialogs

Dialog to Record conversion writes these values to the meta headers, but the reverse conversion rejected them.
---
 barc/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 391e312..4238d6c 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
@@ -521,6 +522,8 @@ impl TryFrom<Record> for Dialog {
                         "deflate" => Encoding::Deflate,
                         "gzip"    => Encoding::Gzip,
                         "br"      => Encoding::Brotli,
+                        "compress" => Encoding::Compress,
+                        "identity" => Encoding::Identity,
                         _ => {
                             return Err(DialogConvertError::InvalidResDecoded(
                                 enc.to_string()
-- 
2.43.0


From fefe5c28c77444e78788f25121ba6b65f428f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:24 +0000
Subject: [PATCH 11/24] fix: match encoding names case-insensitively and accept
 x-compress

Encoding names are case-insensitive, but only lowercase names were
recognized in Transfer-Encoding and Content-Encoding. A body declared
as "GZIP" was left compressed and "Chunked" was not seen. The legacy
name "x-compress" was ignored, though "x-gzip" was not.
---
 body-image-futio/src/decode.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index f225e75..73297e5 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -53,13 +53,15 @@ fn parse_encodings<'a>(
         Ok(encs) => for av in encs.iter().rev() {
             // check in reverse, since these are in order of application
             // and we want the last
-            match *av {
+            match normalize(av) {
                 HyEncoding::Identity => {} //ignore
                 HyEncoding::Chunked  => chunked = true,
                 HyEncoding::Deflate  => res.push(Encoding::Deflate),
                 HyEncoding::Gzip     => res.push(Encoding::Gzip),
                 HyEncoding::EncodingExt(ref s) if s == "x-gzip"
                                      => res.push(Encoding::Gzip),
+                HyEncoding::EncodingExt(ref s) if s == "x-compress"
+                                     => res.push(Encoding::Compress),
                 HyEncoding::Brotli   => res.push(Encoding::Brotli),
                 HyEncoding::Compress => res.push(Encoding::Compress),
                 _ => warn!("Found unknown encoding: {:?}", av),
@@ -72,11 +74,22 @@ fn parse_encodings<'a>(
     chunked
 }
 
+// Encoding names are case-insensitive, but the typed headers only recognize
+// lowercase names. Convert any other case to the recognized value.
+fn normalize(enc: &HyEncoding) -> HyEncoding {
+    if let HyEncoding::EncodingExt(ref s) = *enc {
+        let lower = s.to_ascii_lowercase();
+        lower.parse().unwrap_or(HyEncoding::EncodingExt(lower))
+    } else {
+        enc.clone()
+    }
+}
+
 /// Return true if the chunked Transfer-Encoding can be found in the headers.
 pub fn find_chunked(headers: &http::HeaderMap) -> bool {
     if let Ok(v) = headers.decode::<TransferEncoding>() {
         for av in v.iter() {
-            if let HyEncoding::Chunked = *av { return true }
+            if let HyEncoding::Chunked = normalize(av) { return true }
         }
     }
     false
-- 
2.43.0


From 0b7b6339aba0c8e8c95cb0e2403be9c5b18ee44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 12/24] fix: don't count skipped records in barc cat and cp

With --index, the skipped records were included in the record count, so that
"--index 2 --count 2" selected no records. Count selected records only.
---
 barc-cli/src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..34a1ec4 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -228,13 +228,14 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let fout = &mut io::stdout();
     let nl = true;
     let mut i = 0;
+    let mut n = 0;
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
             if i < s { i += 1; continue; }
         }
-        i += 1;
-        if i > count { break; }
+        n += 1;
+        if n > count { break; }
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -271,12 +272,13 @@ fn cp(
     let mut writer = bfout.writer()?;
 
     let mut i = 0;
+    let mut n = 0;
     while let Some(record) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
             if i < s { i += 1; continue; }
         }
-        i += 1;
-        if i > count { break; }
+        n += 1;
+        if n > count { break; }
         writer.write(&record, strategy)?;
     }
 
-- 
2.43.0


From dcb327e75177f7406eba79eb8601a338c7068235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 13/24] fix: print true offset of first record with barc cat
 --index

The offset was not updated for skipped records, so the first printed record was
labeled with the offset of the first record of the file.
---
 barc-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 34a1ec4..c9a225f 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -232,7 +232,7 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     let mut offset = reader.offset();
     while let Some(rec) = reader.read(&tune)? {
         if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
+            if i < s { i += 1; offset = reader.offset(); continue; }
         }
         n += 1;
         if n > count { break; }
-- 
2.43.0


From f63a01b059a8f8a6dbd455ec4b68ccf7a7debe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 14/24] fix: detect barc cp onto itself by file identity

Only equal path strings were refused, so copying to the same file by another
path, symbolic or hard link appended records forever. Compare the files
instead, and check all inputs before the first copy.
---
 barc-cli/src/main.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index c9a225f..6d51a0e 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -4,6 +4,7 @@
 
 use std::error::Error as StdError;
 use std::fmt;
+use std::fs;
 use std::io;
 use std::process;
 
@@ -78,6 +79,11 @@ fn run() -> Result<(), Flaw> {
             let files = subm.values_of("file").unwrap();
             let fout = subm.value_of("out-file").unwrap();
             let (start, count) = filter_flags(subm)?;
+            for fin in files.clone() {
+                if same_file(fin, fout) {
+                    quit!("BARC input and output file are the same: {}", fin);
+                }
+            }
             for fin in files {
                 cp(fin, fout, &start, count, cs.as_ref())?;
             }
@@ -250,6 +256,23 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     Ok(())
 }
 
+// Return true if both paths are the same file, by any name or link.
+fn same_file(a: &str, b: &str) -> bool {
+    if a == b {
+        return true;
+    }
+    #[cfg(unix)] {
+        use std::os::unix::fs::MetadataExt;
+        if let (Ok(a), Ok(b)) = (fs::metadata(a), fs::metadata(b)) {
+            return a.dev() == b.dev() && a.ino() == b.ino();
+        }
+    }
+    match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false
+    }
+}
+
 // The `cp` command implementation.
 fn cp(
     barc_in: &str,
@@ -259,9 +282,6 @@ fn cp(
     strategy: &dyn CompressStrategy)
     -> Result<(), Flaw>
 {
-    if barc_in == barc_out {
-        quit!("BARC input and output file are the same: {}", barc_in);
-    }
     let bfin = BarcFile::new(barc_in);
     let tune = Tunables::new();
     let mut reader = bfin.reader()?;
-- 
2.43.0


From 827ec0e7b957094c75ee07658d3b0dd06535c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 15/24] fix: report barc cat output errors instead of panic

println! panics when standard output is closed or full.
---
 barc-cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 6d51a0e..68bebdb 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -5,7 +5,7 @@
 use std::error::Error as StdError;
 use std::fmt;
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::process;
 
 use clap::{
@@ -242,8 +242,8 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
         }
         n += 1;
         if n > count { break; }
-        println!("====== file {:-<38} offset {:#012x} ======",
-                 barc_path, offset);
+        writeln!(fout, "====== file {:-<38} offset {:#012x} ======",
+                 barc_path, offset)?;
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
         if parts.req_head { write_headers(fout, nl, rec.req_headers())?; }
         if parts.req_body { write_body   (fout, nl, rec.req_body())?; }
-- 
2.43.0


From a4e9c46a9cc4ce5abc2534dfefce76081d26a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 16/24] fix: report arguments which are not UTF-8 instead of
 panic

---
 barc-cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 68bebdb..e29146d 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -478,6 +478,7 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
         .version(crate_version!())
         .about("Tool for BARC file recording and manipulation")
         .setting(AppSettings::SubcommandRequired)
+        .global_setting(AppSettings::StrictUtf8)
         .setting(AppSettings::DeriveDisplayOrder)
         .max_term_width(100)
         .arg(Arg::with_name("debug")
-- 
2.43.0


From 6d5063b8ef55b9316ba0271cbbdec72eca410d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 17/24] fix: report oversized header blocks instead of panic

The limit is of the BARC record format, so only enforce it when writing a
record, with an error, and not when printing headers read from a compressed
record.
---
 barc/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 4238d6c..a92eeac 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -763,6 +763,13 @@ fn write_record(
             res_h }
     };
 
+    if cmp::max(head.meta, cmp::max(head.req_h, head.res_h)) > V2_MAX_HBLOCK {
+        return Err(BarcError::Io(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "header block exceeds size limit"
+        )));
+    }
+
     encoder.finish()?;
     Ok(head)
 }
@@ -817,7 +824,6 @@ pub fn write_headers<W>(
     if with_crlf && size > 0 {
         size += write_all_len(out, CRLF)?;
     }
-    assert!(size <= V2_MAX_HBLOCK);
     Ok(size)
 }
 
-- 
2.43.0


From c5fd5d940142acc25f36864c150da6dfe9d8416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 18/24] fix: accept options in any position with barc cp

An option with value directly before the files, for example "barc cp --count 1
in out", was refused by the argument parser, which miscounts when an argument
of multiple values is followed by another. Parse as a single argument instead.
---
 barc-cli/src/main.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index e29146d..6dd296f 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -68,7 +68,7 @@ fn run() -> Result<(), Flaw> {
         "cat" => {
             let parts = part_flags(subm);
             let files = subm.values_of("file").unwrap();
-            let (start, count) = filter_flags(subm)?;
+            let (start, count) = filter_flags(subm, files.len())?;
             for f in files {
                 cat(f, &start, count, &parts)?;
             }
@@ -76,10 +76,10 @@ fn run() -> Result<(), Flaw> {
         }
         "cp" => {
             let cs = compress_flags(subm)?;
-            let files = subm.values_of("file").unwrap();
-            let fout = subm.value_of("out-file").unwrap();
-            let (start, count) = filter_flags(subm)?;
-            for fin in files.clone() {
+            let mut files: Vec<_> = subm.values_of("file").unwrap().collect();
+            let fout = files.pop().unwrap(); // minimum 2 values
+            let (start, count) = filter_flags(subm, files.len())?;
+            for fin in &files {
                 if same_file(fin, fout) {
                     quit!("BARC input and output file are the same: {}", fin);
                 }
@@ -153,9 +153,9 @@ fn compress_flags(matches: &ArgMatches<'_>)
 }
 
 // Parse filter flags and return (StartPos, count) or error.
-fn filter_flags(matches: &ArgMatches<'_>) -> Result<(StartPos, usize), Flaw>
+fn filter_flags(matches: &ArgMatches<'_>, files_len: usize)
+    -> Result<(StartPos, usize), Flaw>
 {
-    let files_len = matches.values_of("file").unwrap().len();
     let mut start = StartPos::default();
     let mut count = usize::max_value();
     if let Some(v) = matches.value_of("index") {
@@ -430,6 +430,7 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
     let cp = SubCommand::with_name("cp")
         .setting(AppSettings::DeriveDisplayOrder)
         .setting(AppSettings::DontDelimitTrailingValues)
+        .usage("barc cp [FLAGS] [OPTIONS] <BARC-IN-FILE>... <BARC-OUT-FILE>")
         .about("Copy BARC records from input(s) to an output file")
         .after_help(
             "By default, copies all records from the input file(s) and appends \
@@ -466,12 +467,10 @@ fn setup_cli<'a, 'b>(var_help: &'a VarHelp) -> App<'a, 'b>
             Arg::with_name("file")
                 .required(true)
                 .multiple(true)
-                .value_name("BARC-IN-FILE")
-                .help("BARC file path(s) from which to read"),
-            Arg::with_name("out-file")
-                .required(true)
-                .value_name("BARC-OUT-FILE")
-                .help("BARC file path to create/append")
+                .min_values(2)
+                .value_name("BARC-FILE")
+                .help("BARC file path(s) from which to read, followed by \
+                       the BARC file path to create/append")
         ]);
 
     App::new("barc")
-- 
2.43.0


From e18b232df1103e083e1598841336bb53d652d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:15 +0000
Subject: [PATCH 19/24] fix: don't use Brotli compression level 0

At level 0 the encoder panics with some not compressible content, out of range
of its output buffer. Use level 1, the fastest which works, instead.
---
 barc/src/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index bed1387..8094053 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -434,7 +434,8 @@ impl<'a> EncodeWrapper<'a> {
             brotli::CompressorWriter::new(
                 KeepError { file, error: None },
                 4096, //FIXME: tune?
-                compression_level,
+                // The encoder may panic at level 0
+                compression_level.max(1),
                 21)
         )))
     }
-- 
2.43.0


From 9816e5cb56fdb572706d011a330de8bbda89c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:45 +0000
Subject: [PATCH 20/24] fix: start response timeout in context of the runtime

With a response timeout set, fetch panicked since the timeout was created
outside of its tokio runtime.
---
 body-image-futio/src/fetch.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/body-image-futio/src/fetch.rs b/body-image-futio/src/fetch.rs
index 1d3657d..1ea5ce9 100644
--- a/body-image-futio/src/fetch.rs
+++ b/body-image-futio/src/fetch.rs
@@ -66,19 +66,20 @@ pub fn request_dialog<CN, B>(
         .err_into::<FutioError>()
         .map_ok(|response| Monolog { prolog, response });
 
-    let futr = if let Some(t) = tune.res_timeout() {
-        Either::Left(
-            tokio::time::timeout(t, futr).map(move |r| match r {
-                Ok(Ok(v)) => Ok(v),
-                Ok(Err(e)) => Err(e),
-                Err(_) => Err(FutioError::ResponseTimeout(t))
-            })
-        )
-    } else {
-        Either::Right(futr)
-    };
-
     async move {
+        // The timeout needs to be created in the context of the runtime
+        let futr = if let Some(t) = tune.res_timeout() {
+            Either::Left(
+                tokio::time::timeout(t, futr).map(move |r| match r {
+                    Ok(Ok(v)) => Ok(v),
+                    Ok(Err(e)) => Err(e),
+                    Err(_) => Err(FutioError::ResponseTimeout(t))
+                })
+            )
+        } else {
+            Either::Right(futr)
+        };
+
         let monolog = futr .await?;
 
         let body_timeout = tune.body_timeout();
-- 
2.43.0


From 5f990e095b2313dcd479e7a992371104f8b0a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:54:31 +0000
Subject: [PATCH 21/24] fix: start at the beginning of a read slice with
 advanced position

BodyImage::from_read_slice kept the position of the slice, so that an
image of a slice already read from gave only the remainder of its body
once exploded or streamed, while its length and readers covered all.
---
 body-image/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index c71691b..f86883d 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -728,7 +728,8 @@ fn image_from_file(file: File, length: u64) -> BodyImage {
 fn image_from_read_slice(rslice: ReadSlice) -> BodyImage {
     let len = rslice.len();
     if len > 0 {
-        BodyImage { state: ImageState::FsReadSlice(rslice), len }
+        // Clone for the initial position, if rslice was already read from
+        BodyImage { state: ImageState::FsReadSlice(rslice.clone()), len }
     } else {
         BodyImage::empty()
     }
-- 
2.43.0


From 5050a1311d6691b8906570e9fd6c3f97de22c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:54:33 +0000
Subject: [PATCH 22/24] fix: keep the log level when logger setup fails

setup_logger fails if a logger is already set up, but had by then
already changed the maximum level of the logger in place.
---
 piccolog/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/piccolog/src/lib.rs b/piccolog/src/lib.rs
index da6b4ab..975d953 100644
--- a/piccolog/src/lib.rs
+++ b/piccolog/src/lib.rs
@@ -95,6 +95,9 @@ pub fn test_logger() -> bool {
 ///
 /// Will fail if already setup.
 pub fn setup_logger(level: u32) -> Result<(), Flaw> {
+    let filter = level == 1;
+    log::set_boxed_logger(Box::new(Piccolog { filter }))?;
+
     if level == 0 {
         log::set_max_level(log::LevelFilter::Info)
     } else if level < 3 {
@@ -102,9 +105,6 @@ pub fn setup_logger(level: u32) -> Result<(), Flaw> {
     } else {
         log::set_max_level(log::LevelFilter::Trace)
     }
-
-    let filter = level == 1;
-    log::set_boxed_logger(Box::new(Piccolog { filter }))?;
     Ok(())
 }
 
-- 
2.43.0


From e457d5cfd9bc4c45ea9fc86df447ec0b1febb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:33 +0000
Subject: [PATCH 23/24] fix: limit the allocation made for a body size estimate

BodySink::with_ram allocated its vector in proportion to the estimate.
With a large max_body_ram, an excessive estimate given to read_from, or
a response without content-length, aborted the process.
---
 body-image/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index f86883d..0fdb1f7 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -205,8 +205,9 @@ impl BodySink {
         if size_estimate == 0 {
             BodySink::empty()
         } else {
-            // Estimate buffers based an 8 KiB buffer size + 1.
-            let cap = (size_estimate / 0x2000 + 1) as usize;
+            // Estimate buffers based an 8 KiB buffer size + 1, but limited,
+            // as the estimate may be excessive.
+            let cap = (size_estimate / 0x2000 + 1).min(0x4000) as usize;
             BodySink::with_ram_buffers(cap)
         }
     }
-- 
2.43.0


From e1eb977d0e895208835d60d53527a74f1734468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:46:50 +0000
Subject: [PATCH 24/24] fix: decode all members of gzip response bodies

---
 body-image-futio/src/decode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/body-image-futio/src/decode.rs b/body-image-futio/src/decode.rs
index 73297e5..0655b4a 100644
--- a/body-image-futio/src/decode.rs
+++ b/body-image-futio/src/decode.rs
@@ -1,6 +1,6 @@
 //! Implementaiton module for finding encodings and decompression
 
-use flate2::read::{DeflateDecoder, GzDecoder};
+use flate2::read::{DeflateDecoder, MultiGzDecoder};
 use hyperx::header::{
     ContentEncoding, Encoding as HyEncoding,
     Header, TransferEncoding, TypedHeaders
@@ -142,7 +142,7 @@ pub fn decompress(body: &BodyImage, compression: Encoding, tune: &Tunables)
     let reader = body.reader();
     match compression {
         Encoding::Gzip => {
-            let mut decoder = GzDecoder::new(reader);
+            let mut decoder = MultiGzDecoder::new(reader);
             let len_est = body.len() * u64::from(tune.size_estimate_gzip());
             Ok(BodyImage::read_from(&mut decoder, len_est, tune)?)
         }
-- 
2.43.0

