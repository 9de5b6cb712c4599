From cc2cd7d389d3b77478bbd02b30c991e9d4d4032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 01/23] fix: don't yield a CR at the end of the buffer that
 belongs to the boundary

When the buffered data ended between the CR and the LF preceding a boundary,
the CR (and afterwards the LF) was returned as field data.
---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 21f37d1..a404f0f 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -211,6 +211,11 @@ fn find_boundary(buf: &[u8], boundary: &[u8]) -> Result<usize, usize> {
         }
     }
 
+    // a trailing CR may be the start of the CRLF that belongs to the boundary
+    if buf.ends_with(b"\r") {
+        return Err(buf.len() - 1);
+    }
+
     Err(buf.len())
 }
 
-- 
2.43.0


From 44f5809e82e7067d305a03f24fe0cb3b14fcf1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 02/23] fix: don't report EOF when skipping a field whose
 boundary was already found

With unread data in front of the boundary the buffer could be considered full
enough while the two bytes following the boundary had not been read yet.
---
 src/server/boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index a404f0f..9848221 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -131,6 +131,11 @@ impl<R> BoundaryReader<R> where R: Read {
             self.consume(buf_len);
         }
 
+        // discard any field data left before the boundary so that the next `fill_buf()`
+        // is guaranteed to have room for, and read, the bytes following the boundary
+        let remaining = self.search_idx;
+        self.consume(remaining);
+
         let consume_amt = {
             let buf = self.source.fill_buf()?;
 
-- 
2.43.0


From 20918b658281273e1dfc1407ba080bffdb65f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 03/23] fix: keep reading when the minimum buffer size is a
 large part of the capacity

With a minimum of more than half of the buffer's capacity, the buffer could run
out of room while holding less than the minimum, and field data ended early.
---
 src/server/boundary.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 9848221..a056151 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -108,6 +108,15 @@ impl<R> BoundaryReader<R> where R: Read {
         // ensure the minimum buf size is at least enough to find a boundary with some extra
         let min_buf_size = cmp::max(self.boundary.len() * 2, min_buf_size);
 
+        // `MinBuffered` can only make room in the buffer if there is at least as much space
+        // again, otherwise it stops reading and the data looks like it ended
+        let min_capacity = min_buf_size.saturating_mul(2);
+
+        if self.source.capacity() < min_capacity {
+            let additional = min_capacity - self.source.buf_len();
+            self.source.reserve(additional);
+        }
+
         self.source.policy_mut().0 = min_buf_size;
     }
 
-- 
2.43.0


From e52a90715237ac12240cbb9f899ed53f318bbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 04/23] fix: don't lose a field when the reader fails while its
 headers are read

The boundary was already consumed at that point, so that the next call skipped
the field. Errors of the reader are also returned with their own kind now.
---
 src/server/field.rs | 39 +++++++++++++++++++++++++++------------
 src/server/mod.rs   | 17 ++++++++++++++++-
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 6ccf952..ed8f63c 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -94,10 +94,10 @@ where
 fn copy_headers<'h, 'b: 'h>(
     raw: &[Header<'b>],
     headers: &'h mut [StrHeader<'b>],
-) -> io::Result<&'h [StrHeader<'b>]> {
+) -> Result<&'h [StrHeader<'b>], str::Utf8Error> {
     for (raw, header) in raw.iter().zip(&mut *headers) {
         header.name = raw.name;
-        header.val = io_str_utf8(raw.value)?;
+        header.val = str::from_utf8(raw.value)?;
     }
 
     Ok(&headers[..raw.len()])
@@ -128,8 +128,15 @@ pub struct FieldHeaders {
 
 impl FieldHeaders {
     /// Parse the field headers from the passed `BufRead`, consuming the relevant bytes.
-    fn read_from<R: BufRead>(r: &mut R) -> Result<Self, ParseHeaderError> {
-        with_headers(r, Self::parse)?
+    ///
+    /// The outer error is from the reader, in which case nothing was consumed; the inner if the
+    /// headers are invalid.
+    pub(super) fn read_from<R: BufRead>(r: &mut R) -> io::Result<io::Result<Self>> {
+        match with_headers(r, Self::parse).and_then(|res| res) {
+            Ok(headers) => Ok(Ok(headers)),
+            Err(ParseHeaderError::Io(e)) => Err(e),
+            Err(e) => Ok(Err(io::Error::new(io::ErrorKind::InvalidData, e))),
+        }
     }
 
     fn parse(headers: &[StrHeader]) -> Result<FieldHeaders, ParseHeaderError> {
@@ -368,10 +375,6 @@ fn get_str_after<'a>(
     ))
 }
 
-fn io_str_utf8(buf: &[u8]) -> io::Result<&str> {
-    str::from_utf8(buf).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-}
-
 fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a StrHeader<'b>> {
     // Field names are case insensitive and consist of ASCII characters
     // only (see https://tools.ietf.org/html/rfc822#section-3.2).
@@ -434,10 +437,11 @@ pub trait PrivReadEntry {
     /// Returns `true` if a field should follow, `false` otherwise.
     fn consume_boundary(&mut self) -> io::Result<bool>;
 
-    fn read_headers(&mut self) -> Result<FieldHeaders, io::Error> {
-        FieldHeaders::read_from(self.source_mut())
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
-    }
+    /// Read the headers of the field following the boundary that was last consumed.
+    ///
+    /// If this returns an error of the underlying reader, then calling `consume_boundary()` and
+    /// this again will try to read the headers of the same field.
+    fn read_headers(&mut self) -> io::Result<FieldHeaders>;
 
     fn read_to_string(&mut self) -> io::Result<String> {
         let mut buf = String::new();
@@ -463,6 +467,10 @@ impl<'a, M: ReadEntry> PrivReadEntry for &'a mut M {
     fn consume_boundary(&mut self) -> io::Result<bool> {
         (**self).consume_boundary()
     }
+
+    fn read_headers(&mut self) -> io::Result<FieldHeaders> {
+        (**self).read_headers()
+    }
 }
 
 /// Ternary result type returned by `ReadEntry::next_entry()`,
@@ -559,6 +567,13 @@ quick_error! {
         TooLarge {
             description("field headers section ridiculously long or missing trailing CRLF-CRLF")
         }
+        /// A header value is not valid UTF-8
+        Utf8Error(err: str::Utf8Error) {
+            description(GENERIC_PARSE_ERR)
+            display(x) -> ("{}: {}", x.description(), err)
+            cause(err)
+            from()
+        }
         /// IO error
         Io(err: io::Error) {
             description("an io error occurred while parsing the headers")
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 8cd01a0..4d337f2 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -78,6 +78,9 @@ pub mod save;
 /// Implements `Borrow<R>` to allow access to the request body, if desired.
 pub struct Multipart<R> {
     reader: BoundaryReader<R>,
+    /// A boundary was consumed but the headers following it were not read yet
+    /// because the reader returned an error.
+    headers_pending: bool,
 }
 
 impl Multipart<()> {
@@ -112,6 +115,7 @@ impl<R: Read> Multipart<R> {
 
         Multipart { 
             reader: BoundaryReader::from_reader(body, boundary),
+            headers_pending: false,
         }
     }
 
@@ -176,7 +180,18 @@ impl<R: Read> PrivReadEntry for Multipart<R> {
     /// Returns `true` if a field should follow this boundary, `false` otherwise.
     fn consume_boundary(&mut self) -> io::Result<bool> {
         debug!("Consume boundary!");
-        self.reader.consume_boundary()
+
+        if !self.headers_pending {
+            self.headers_pending = self.reader.consume_boundary()?;
+        }
+
+        Ok(self.headers_pending)
+    }
+
+    fn read_headers(&mut self) -> io::Result<FieldHeaders> {
+        let headers = FieldHeaders::read_from(&mut self.reader)?;
+        self.headers_pending = false;
+        headers
     }
 }
 
-- 
2.43.0


From 2eec63200360f0de7466070ddf7dafe3d3199157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 05/23] fix: parse the parameters of Content-Disposition
 independently of order and content

Semicolons in quoted values cut them off, and a filename before the name was
taken for the name.
---
 src/server/field.rs | 67 ++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index ed8f63c..41f9a72 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -185,20 +185,17 @@ impl ContentDisp {
         };
 
         // Content-Disposition: form-data; name=?
-        let (field_name, filename) = match get_str_after("name=", ';', after_disp_type) {
+        let field_name = match find_param("name", after_disp_type) {
             None => invalid_cont_disp!(
                 "expected field name and maybe filename, got",
                 after_disp_type
             ),
-            // Content-Disposition: form-data; name={field_name}; filename=?
-            Some((field_name, after_field_name)) => {
-                let field_name = trim_quotes(field_name);
-                let filename = get_str_after("filename=", ';', after_field_name)
-                    .map(|(filename, _)| trim_quotes(filename).to_owned());
-                (field_name, filename)
-            }
+            Some(field_name) => field_name,
         };
 
+        // Content-Disposition: form-data; name={field_name}; filename=?
+        let filename = find_param("filename", after_disp_type).map(str::to_owned);
+
         Ok(ContentDisp {
             field_name: field_name.to_owned(),
             filename,
@@ -359,20 +356,46 @@ fn trim_quotes(s: &str) -> &str {
     s.trim_matches('"')
 }
 
-/// Get the string after `needle` in `haystack`, stopping before `end_val_delim`
-fn get_str_after<'a>(
-    needle: &str,
-    end_val_delim: char,
-    haystack: &'a str,
-) -> Option<(&'a str, &'a str)> {
-    let val_start_idx = try_opt!(haystack.find(needle)) + needle.len();
-    let val_end_idx = haystack[val_start_idx..]
-        .find(end_val_delim)
-        .map_or(haystack.len(), |end_idx| end_idx + val_start_idx);
-    Some((
-        &haystack[val_start_idx..val_end_idx],
-        &haystack[val_end_idx..],
-    ))
+/// Get the value of the first parameter with the given name in `params`, without quotes.
+fn find_param<'a>(name: &str, mut params: &'a str) -> Option<&'a str> {
+    loop {
+        params = params.trim_start_matches(|c: char| c == ';' || c.is_whitespace());
+
+        let name_end = try_opt!(params.find(|c| c == '=' || c == ';'));
+        let (param_name, after_name) = params.split_at(name_end);
+
+        if after_name.starts_with(';') {
+            // parameter without a value
+            params = after_name;
+            continue;
+        }
+
+        let (value, rest) = split_param_value(after_name[1..].trim_start());
+
+        if param_name.trim().eq_ignore_ascii_case(name) {
+            return Some(value);
+        }
+
+        params = rest;
+    }
+}
+
+/// Split a parameter value, which may be quoted and then contain semicolons, from what follows it.
+fn split_param_value(s: &str) -> (&str, &str) {
+    if s.starts_with('"') {
+        // clients don't agree on how quotes in the value are escaped (if at all), so only take
+        // a quote for the closing one if it is at the end of the parameter
+        for (idx, _) in s.match_indices('"').skip(1) {
+            let rest = s[idx + 1..].trim_start();
+
+            if rest.is_empty() || rest.starts_with(';') {
+                return (&s[1..idx], rest);
+            }
+        }
+    }
+
+    let (value, rest) = split_once(s, ';').unwrap_or((s, ""));
+    (trim_quotes(value.trim()), rest)
 }
 
 fn find_header<'a, 'b>(headers: &'a [StrHeader<'b>], name: &str) -> Option<&'a StrHeader<'b>> {
-- 
2.43.0


From de01effed46be5834465d7b12e2efa91a2501987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 06/23] fix: save to a file in, not next to, the temporary
 directory in with_filename()

---
 src/server/save.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index fa95c9e..bd299f7 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -367,10 +367,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     ///
     /// See `with_path()` for more details.
     pub fn with_filename(&mut self, filename: &str) -> FieldSaveResult {
-        let mut tempdir = env::temp_dir();
-        tempdir.set_file_name(filename);
-
-        self.with_path(tempdir)
+        let path = env::temp_dir().join(filename);
+        self.with_path(path)
     }
 
     /// Save the field data, potentially using a file with a random alphanumeric name
-- 
2.43.0


From 6fa6d24bdfc790d54fd4219ff145fdcc4412550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 07/23] fix: report invalid UTF-8 in text fields instead of
 spinning on it

Unless the invalid bytes were the last ones of the field, saving it as text
looped without consuming anything until the bytes it believed to have read
added up to the limit, so that force_text() never returned a UTF-8 error.
---
 src/server/save.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index bd299f7..49eb2e5 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -456,8 +456,8 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let res = self.read_mem(|buf| {
             match str::from_utf8(buf) {
                 Ok(s) => { string.push_str(s); Full(buf.len()) },
-                // buffer should always be bigger
-                Err(e) => if buf.len() < 4 {
+                // at the start of the buffer, a sequence can only be incomplete if the data ends
+                Err(e) => if e.valid_up_to() == 0 {
                         Partial(0, e.into())
                     } else {
                         string.push_str(str::from_utf8(&buf[..e.valid_up_to()]).unwrap());
@@ -970,11 +970,19 @@ fn create_dir_all(path: &Path) -> io::Result<()> {
 fn try_copy_limited<R: BufRead, Wb: FnMut(&[u8]) -> SaveResult<usize, usize>>(src: R, mut with_buf: Wb, limit: u64) -> SaveResult<u64, u64> {
     let mut copied = 0u64;
     try_read_buf(src, |buf| {
-        let new_copied = copied.saturating_add(buf.len() as u64);
-        if new_copied > limit { return Partial(0, PartialReason::SizeLimit) }
-        copied = new_copied;
+        if copied.saturating_add(buf.len() as u64) > limit {
+            return Partial(0, PartialReason::SizeLimit)
+        }
+
+        let res = with_buf(buf);
+
+        // `with_buf` may not have used all of `buf`
+        match res {
+            Full(amt) | Partial(amt, _) => copied = copied.saturating_add(amt as u64),
+            Error(_) => (),
+        }
 
-        with_buf(buf)
+        res
     })
 }
 
-- 
2.43.0


From 94ad90c73ef4ad4ec49c7aa5472e72bdb0a67f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 08/23] fix: enforce the size limit on what is saved in memory
 and on disk together

The data already read to memory was not counted when the rest was written to
disk, so that up to memory_threshold more than the limit was saved, without
being reported. A size limit not above memory_threshold could also create files.
---
 src/server/save.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 49eb2e5..90b02c0 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -393,7 +393,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let bytes = if self.text_policy != Ignore {
             let (text, reason) = try_partial!(self.save_text());
             match reason {
-                SizeLimit if !self.cmp_size_limit(text.len()) => text.into_bytes(),
+                SizeLimit if self.memory_threshold < self.size_limit => text.into_bytes(),
                 Utf8Error(_) if self.text_policy != Force => text.into_bytes(),
                 other => return Partial(text.into(), other),
             }
@@ -404,7 +404,7 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
         let (bytes, reason) = try_partial!(self.save_mem(bytes));
 
         match reason {
-            SizeLimit if !self.cmp_size_limit(bytes.len()) => (),
+            SizeLimit if self.memory_threshold < self.size_limit => (),
             other => return Partial(bytes.into(), other)
         }
 
@@ -420,7 +420,9 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
                 .map(move |size| SavedData::File(path, size as u64))
         );
 
-        self.write_to(file).map(move |written| data.add_size(written))
+        // what was read to memory counts towards the limit
+        self.write_to_limited(file, self.size_limit.saturating_sub(bytes.len() as u64))
+            .map(move |written| data.add_size(written))
     }
 
 
@@ -430,9 +432,13 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
     /// (tested by `MultipartFile::fill_buf().is_empty()` so no bytes are consumed).
     ///
     /// Retries on interrupts.
-    pub fn write_to<W: Write>(&mut self, mut dest: W) -> SaveResult<u64, u64> {
+    pub fn write_to<W: Write>(&mut self, dest: W) -> SaveResult<u64, u64> {
+        self.write_to_limited(dest, self.size_limit)
+    }
+
+    fn write_to_limited<W: Write>(&mut self, mut dest: W, limit: u64) -> SaveResult<u64, u64> {
         if self.size_limit < u64::MAX {
-            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), self.size_limit)
+            try_copy_limited(&mut self.savable, |buf| try_write_all(buf, &mut dest), limit)
         } else {
             try_read_buf(&mut self.savable, |buf| try_write_all(buf, &mut dest))
         }
@@ -478,10 +484,6 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
             .saturating_sub(pre_read);
         try_copy_limited(&mut self.savable, with_buf, limit)
     }
-
-    fn cmp_size_limit(&self, size: usize) -> bool {
-        size as u64 >= self.size_limit
-    }
 }
 
 /// A field that has been saved (to memory or disk) from a multipart request.
-- 
2.43.0


From 0d816a6f788deee8db4b021a37e8ef7e7c64b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 09/23] fix: return what was saved so far if an error occurs
 after data was read

SaveResult::Error is for errors before anything was done, but was also returned
when data had been read to memory, or to a file that was then left behind.
---
 src/server/save.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 90b02c0..786e40e 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -39,15 +39,6 @@ macro_rules! try_start (
     )
 );
 
-macro_rules! try_full (
-    ($try:expr) => {
-        match $try {
-            Full(full) => full,
-            other => return other,
-        }
-    }
-);
-
 macro_rules! try_partial (
     ($try:expr) => {
         match $try {
@@ -412,17 +403,24 @@ impl<'m, M: 'm> SaveBuilder<&'m mut MultipartData<M>> where MultipartData<M>: Bu
 
         let mut file = match create_dir_all(&path).and_then(|_| self.open_opts.open(&path)) {
             Ok(file) => file,
-            Err(e) => return Error(e),
+            Err(e) => return if bytes.is_empty() { Error(e) }
+                             else { Partial(bytes.into(), e.into()) },
         };
 
-        let data = try_full!(
-            try_write_all(&bytes, &mut file)
-                .map(move |size| SavedData::File(path, size as u64))
-        );
+        let data = match try_write_all(&bytes, &mut file) {
+            Full(size) => SavedData::File(path, size as u64),
+            Partial(size, reason) => return Partial(SavedData::File(path, size as u64), reason),
+            Error(e) => return Partial(SavedData::File(path, 0), e.into()),
+        };
 
         // what was read to memory counts towards the limit
-        self.write_to_limited(file, self.size_limit.saturating_sub(bytes.len() as u64))
-            .map(move |written| data.add_size(written))
+        let limit = self.size_limit.saturating_sub(bytes.len() as u64);
+
+        match self.write_to_limited(file, limit) {
+            Full(written) => Full(data.add_size(written)),
+            Partial(written, reason) => Partial(data.add_size(written), reason),
+            Error(e) => Partial(data, e.into()),
+        }
     }
 
 
-- 
2.43.0


From 78481dfd17d8a6b6be0f8f5b517a844c8307ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 10/23] fix: only report the count limit if there are more
 fields, and return the next one

A request with exactly as many fields as allowed was reported as exceeding the
limit, and the first field over the limit was dropped.
---
 src/server/save.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/server/save.rs b/src/server/save.rs
index 786e40e..f83c765 100644
--- a/src/server/save.rs
+++ b/src/server/save.rs
@@ -297,7 +297,7 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
             saver.with_dir(entries.save_dir.as_path())
         };
 
-        while entries.fields_count < count_limit {
+        loop {
             let mut field: MultipartField<M> = match res {
                 ReadEntryResult::Entry(field) => field,
                 ReadEntryResult::End(_) => return Full(entries), // normal exit point
@@ -310,6 +310,19 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 )
             };
 
+            if entries.fields_count >= count_limit {
+                return Partial(
+                    PartialEntries {
+                        entries,
+                        partial: Some(PartialSavedField {
+                            source: field,
+                            dest: None,
+                        }),
+                    },
+                    PartialReason::CountLimit
+                );
+            }
+
             let (dest, reason) = match save_field(&mut field, &entries) {
                 Full(saved) => {
                     entries.push_field(field.headers, saved);
@@ -331,14 +344,6 @@ impl<M> SaveBuilder<M> where M: ReadEntry {
                 reason
             );
         }
-
-        Partial(
-            PartialEntries {
-                entries,
-                partial: None,
-            },
-            PartialReason::CountLimit
-        )
     }
 }
 
-- 
2.43.0


From 98974f62bc2ffac91ea66d1ea573b2873937a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 11/23] fix: complete requests over the count limit with
 LimitBehavior::Continue

Resuming with the same limit never got any further, so that the middleware
did not return.
---
 src/server/iron.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index c4bef57..f5c2946 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -10,7 +10,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io};
+use std::{error, fmt, io, u32};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -159,8 +159,9 @@ impl Intercept {
     }
 
     fn read_request_lenient(&self, mut multipart: IronMultipart, tempdir: TempDir) -> IronResult<Option<Entries>> {
+        // the count limit is ignored
         let mut entries = match multipart.save().size_limit(self.file_size_limit)
-                                                .count_limit(self.file_count_limit)
+                                                .count_limit(u32::MAX)
                                                 .with_temp_dir(tempdir) {
             Full(entries) => return Ok(Some(entries)),
             Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
@@ -170,7 +171,7 @@ impl Intercept {
 
         loop {
             entries = match multipart.save().size_limit(self.file_size_limit)
-                                            .count_limit(self.file_count_limit)
+                                            .count_limit(u32::MAX)
                                             .with_entries(entries) {
                 Full(entries) => return Ok(Some(entries)),
                 Partial(_, PartialReason::IoError(err)) => return Err(io_to_iron(err, "Error midway through request")),
-- 
2.43.0


From 52d7dd463fc3bce8ad73073cc53b150d00f4a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 12/23] fix: write a closing boundary for lazy requests without
 fields

They panicked when sent or asked for their boundary, and the empty body could
not be parsed.
---
 src/client/lazy.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 4df40cf..20d2495 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -305,12 +305,8 @@ impl<'d> PreparedFields<'d> {
             }
         }
 
-        // So we don't write a spurious end boundary
-        if text_data.is_empty() && streams.is_empty() {
-            boundary = String::new();
-        } else {
-            boundary.push_str("--");
-        }
+        // always write the closing boundary, even for empty bodies
+        boundary.push_str("--");
 
         content_len += boundary.len() as u64;
 
-- 
2.43.0


From 2165fe1b7a66d600f6dcf617972ee9a2fc15b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 13/23] fix: include text fields in the content length of lazy
 requests

---
 src/client/lazy.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 20d2495..7bde2f5 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -308,6 +308,7 @@ impl<'d> PreparedFields<'d> {
         // always write the closing boundary, even for empty bodies
         boundary.push_str("--");
 
+        content_len += text_data.len() as u64;
         content_len += boundary.len() as u64;
 
         Ok(PreparedFields {
-- 
2.43.0


From 998bfaffa743557ddfcbd81740376e25ce25c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 14/23] fix: don't lose data of a lazy request when reading a
 stream fails

If the stream returned an error after other data was copied to the buffer, the
number of bytes already read was not returned, so that retrying (as done for
interruptions by io::copy() and others) left them out.
---
 src/client/lazy.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 7bde2f5..94cb616 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -343,9 +343,8 @@ impl<'d> Read for PreparedFields<'d> {
 
         let mut total_read = 0;
 
-        while total_read < buf.len() && !cursor_at_end(&self.end_boundary) {
-            let buf = &mut buf[total_read..];
-
+        // return what was read before trying to read more, which could return an error
+        while total_read == 0 && !cursor_at_end(&self.end_boundary) {
             total_read += if !cursor_at_end(&self.text_data) {
                 self.text_data.read(buf)?
             } else if let Some(mut field) = self.streams.pop() {
-- 
2.43.0


From 877bee990a5614d6dac6eb1bdc2c12113d321e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 15/23] fix: don't write data twice to the inner writer of
 StdoutTee

After a short write to stdout, the rest was passed to write() again.
---
 src/mock.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mock.rs b/src/mock.rs
index 2947661..10358cf 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -193,7 +193,8 @@ impl<'s, W> StdoutTee<'s, W> {
 impl<'s, W: Write> Write for StdoutTee<'s, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
         self.inner.write_all(buf)?;
-        self.stdout.write(buf)
+        self.stdout.write_all(buf)?;
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 899db1914172f6f77f2fc1533db09b27ecfa7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 16/23] fix: only accept POST requests in the Iron integration,
 as documented

---
 src/server/iron.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index f5c2946..4964f90 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -4,6 +4,7 @@
 //! iron::Request`.
 
 use iron::headers::ContentType;
+use iron::method::Method;
 use iron::mime::{Mime, TopLevel, SubLevel};
 use iron::request::{Body as IronBody, Request as IronRequest};
 use iron::typemap::Key;
@@ -21,6 +22,10 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut IronRequest<'a, 'b> {
     type Body = &'r mut IronBody<'a, 'b>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.method != Method::Post {
+            return None;
+        }
+
         let content_type = try_opt!(self.headers.get::<ContentType>());
         if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **content_type {
             content_type.get_param("boundary").map(|b| b.as_str())
-- 
2.43.0


From 4cc473eed4a47b29827b66fca5545337dadc88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 17/23] fix: only accept multipart/form-data POST requests in
 the Nickel integration

Any request with a boundary in its content type was accepted.
---
 src/server/nickel.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/nickel.rs b/src/server/nickel.rs
index 0f725a3..5c76ae7 100644
--- a/src/server/nickel.rs
+++ b/src/server/nickel.rs
@@ -3,6 +3,8 @@ pub extern crate nickel;
 
 use self::nickel::hyper;
 use self::hyper::header::ContentType;
+use self::hyper::method::Method;
+use self::hyper::mime::{Mime, TopLevel, SubLevel};
 
 pub use self::nickel::Request as NickelRequest;
 pub use self::nickel::hyper::server::Request as HyperRequest;
@@ -19,9 +21,17 @@ impl<'r, 'mw: 'r, 'server: 'mw, D: 'mw> HttpRequest for Maybe<'r, 'mw, 'server,
     type Body = &'r mut HyperRequest<'mw, 'server>;
 
     fn multipart_boundary(&self) -> Option<&str> {
+        if self.0.origin.method != Method::Post {
+            return None;
+        }
+
         // we can't use the impl from the `hyper` module because it might be the wrong version
         let cont_type = try_opt!(self.0.origin.headers.get::<ContentType>());
-        cont_type.get_param("boundary").map(|v| v.as_str())
+        if let Mime(TopLevel::Multipart, SubLevel::FormData, _) = **cont_type {
+            cont_type.get_param("boundary").map(|v| v.as_str())
+        } else {
+            None
+        }
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From 2b2559cab1b443f9ab8b0d2da54c5a01dbf8c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 18/23] fix: only accept multipart/form-data POST requests in
 the tiny_http integration

Any request with a boundary in its content type was accepted, and quotes were
not removed from the boundary, so that such a request could not be parsed.
---
 src/server/field.rs     |  2 +-
 src/server/tiny_http.rs | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/server/field.rs b/src/server/field.rs
index 41f9a72..8f7f090 100644
--- a/src/server/field.rs
+++ b/src/server/field.rs
@@ -357,7 +357,7 @@ fn trim_quotes(s: &str) -> &str {
 }
 
 /// Get the value of the first parameter with the given name in `params`, without quotes.
-fn find_param<'a>(name: &str, mut params: &'a str) -> Option<&'a str> {
+pub(super) fn find_param<'a>(name: &str, mut params: &'a str) -> Option<&'a str> {
     loop {
         params = params.trim_start_matches(|c: char| c == ';' || c.is_whitespace());
 
diff --git a/src/server/tiny_http.rs b/src/server/tiny_http.rs
index ae246cf..60e4bb5 100644
--- a/src/server/tiny_http.rs
+++ b/src/server/tiny_http.rs
@@ -6,6 +6,9 @@
 
 pub use tiny_http::Request as TinyHttpRequest;
 
+use tiny_http::Method;
+
+use super::field::find_param;
 use super::HttpRequest;
 
 use std::io::Read;
@@ -14,7 +17,9 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
     type Body = &'r mut dyn Read;
 
     fn multipart_boundary(&self) -> Option<&str> {
-        const BOUNDARY: &str = "boundary=";
+        if *self.method() != Method::Post {
+            return None;
+        }
 
         let content_type = try_opt!(self
             .headers()
@@ -22,12 +27,14 @@ impl<'r> HttpRequest for &'r mut TinyHttpRequest {
             .find(|header| header.field.equiv("Content-Type")))
         .value
         .as_str();
-        let start = try_opt!(content_type.find(BOUNDARY)) + BOUNDARY.len();
-        let end = content_type[start..]
-            .find(';')
-            .map_or(content_type.len(), |end| start + end);
+        let params_start = try_opt!(content_type.find(';'));
+        let (mime_type, params) = content_type.split_at(params_start);
+
+        if !mime_type.trim().eq_ignore_ascii_case("multipart/form-data") {
+            return None;
+        }
 
-        Some(&content_type[start..end])
+        find_param("boundary", params).filter(|boundary| !boundary.is_empty())
     }
 
     fn body(self) -> Self::Body {
-- 
2.43.0


From fb31190318a4747941b89c0d0a31af094546e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 19/23] fix: create the temp_dir_path of the Iron middleware if
 it doesn't exist

This is documented but failed every request.
---
 src/server/iron.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/iron.rs b/src/server/iron.rs
index 4964f90..45f7abb 100644
--- a/src/server/iron.rs
+++ b/src/server/iron.rs
@@ -11,7 +11,7 @@ use iron::typemap::Key;
 use iron::{BeforeMiddleware, IronError, IronResult};
 
 use std::path::PathBuf;
-use std::{error, fmt, io, u32};
+use std::{error, fmt, fs, io, u32};
 use tempfile;
 
 use super::{FieldHeaders, HttpRequest, Multipart};
@@ -133,7 +133,9 @@ impl Intercept {
         let tempdir = self.temp_dir_path.as_ref()
                 .map_or_else(
                     || tempfile::Builder::new().prefix("multipart-iron").tempdir(),
-                    |path| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    |path| fs::create_dir_all(path).and_then(
+                        |_| tempfile::Builder::new().prefix("multipart-iron").tempdir_in(path)
+                    )
                 )
                 .map_err(|e| io_to_iron(e, "Error opening temporary directory for request."))?;
 
-- 
2.43.0


From 0dd7cd4a1e877d4e4d0f889814a52af88dfda69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 20/23] fix: do not read from the request body again after its
 end

tiny_http's reader of chunked bodies waits for another chunk when read after
the last one, so a chunked upload to it never returned.
---
 src/server/boundary.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index a056151..245e546 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -30,10 +30,39 @@ enum State {
     AtEnd
 }
 
+/// Does not read from `inner` again once it has signalled EOF.
+///
+/// Some readers (e.g. of chunked request bodies) would wait for data following the request.
+#[derive(Debug)]
+struct UntilEof<R> {
+    inner: R,
+    at_eof: bool,
+}
+
+impl<R: Read> Read for UntilEof<R> {
+    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
+        if self.at_eof || out.is_empty() {
+            return Ok(0);
+        }
+
+        let read = self.inner.read(out)?;
+        self.at_eof = read == 0;
+        Ok(read)
+    }
+}
+
+#[cfg(feature = "bench")]
+impl<R: Seek> Seek for UntilEof<R> {
+    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
+        self.at_eof = false;
+        self.inner.seek(pos)
+    }
+}
+
 /// A struct implementing `Read` and `BufRead` that will yield bytes until it sees a given sequence.
 #[derive(Debug)]
 pub struct BoundaryReader<R> {
-    source: BufReader<R, MinBuffered>,
+    source: BufReader<UntilEof<R>, MinBuffered>,
     boundary: Vec<u8>,
     search_idx: usize,
     state: State,
@@ -44,7 +73,8 @@ impl<R> BoundaryReader<R> where R: Read {
     pub fn from_reader<B: Into<Vec<u8>>>(reader: R, boundary: B) -> BoundaryReader<R> {
         let mut boundary = boundary.into();
         safemem::prepend(b"--", &mut boundary);
-        let source = BufReader::new(reader).set_policy(MinBuffered(MIN_BUF_SIZE));
+        let source = BufReader::new(UntilEof { inner: reader, at_eof: false })
+            .set_policy(MinBuffered(MIN_BUF_SIZE));
 
         BoundaryReader {
             source,
@@ -249,7 +279,7 @@ impl<'a> BoundaryReader<io::Cursor<&'a [u8]>> {
 
 impl<R> Borrow<R> for BoundaryReader<R> {
     fn borrow(&self) -> &R {
-        self.source.get_ref()
+        &self.source.get_ref().inner
     }
 }
 
-- 
2.43.0


From b42ab63a4b8b00c6dfbc572daba052abb20736ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 21/23] fix: escape quotes and line breaks in names and
 filenames sent by the clients

---
 src/client/lazy.rs |  6 +++---
 src/client/mod.rs  | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/client/lazy.rs b/src/client/lazy.rs
index 94cb616..9d2303a 100644
--- a/src/client/lazy.rs
+++ b/src/client/lazy.rs
@@ -283,7 +283,7 @@ impl<'d> PreparedFields<'d> {
                     text_data,
                     "{}\r\nContent-Disposition: form-data; \
                      name=\"{}\"\r\n\r\n{}",
-                    boundary, field.name, text
+                    boundary, super::escape_param(&field.name), text
                 )
                 .unwrap(),
                 Data::File(file) => {
@@ -399,12 +399,12 @@ impl<'d> PreparedField<'d> {
         write!(
             header,
             "{}\r\nContent-Disposition: form-data; name=\"{}\"",
-            boundary, name
+            boundary, super::escape_param(name)
         )
         .unwrap();
 
         if let Some(filename) = filename {
-            write!(header, "; filename=\"{}\"", filename).unwrap();
+            write!(header, "; filename=\"{}\"", super::escape_param(filename)).unwrap();
         }
 
         write!(header, "\r\nContent-Type: {}\r\n\r\n", content_type).unwrap();
diff --git a/src/client/mod.rs b/src/client/mod.rs
index 3158d2a..e63959b 100644
--- a/src/client/mod.rs
+++ b/src/client/mod.rs
@@ -282,8 +282,8 @@ impl<'a, W: Write> MultipartWriter<'a, W> {
             // Write the first boundary, or the boundary for the previous field.
             self.write_boundary(),
             { self.data_written = true; Ok(()) },
-            write!(self.inner, "Content-Disposition: form-data; name=\"{}\"", name),
-            filename.map(|filename| write!(self.inner, "; filename=\"{}\"", filename))
+            write!(self.inner, "Content-Disposition: form-data; name=\"{}\"", escape_param(name)),
+            filename.map(|filename| write!(self.inner, "; filename=\"{}\"", escape_param(filename)))
                 .unwrap_or(Ok(())),
             content_type.map(|content_type| write!(self.inner, "\r\nContent-Type: {}", content_type))
                 .unwrap_or(Ok(())),
@@ -304,6 +304,20 @@ impl<'a, W: Write> MultipartWriter<'a, W> {
     }
 }
 
+/// Escape the characters in a field's name or filename which would end the quoted parameter or the
+/// header, the way browsers do: https://html.spec.whatwg.org/#multipart-form-data
+fn escape_param(param: &str) -> Cow<str> {
+    if !param.contains(|c| c == '"' || c == '\r' || c == '\n') {
+        return param.into();
+    }
+
+    param
+        .replace('"', "%22")
+        .replace('\r', "%0D")
+        .replace('\n', "%0A")
+        .into()
+}
+
 fn mime_filename(path: &Path) -> (Mime, Option<&str>) {
     let content_type = ::mime_guess::from_path(path);
     let filename = opt_filename(path);
-- 
2.43.0


From a083819d90b83ffc04f2ccfe2ab0dcff8823f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 22/23] fix: return at least the minimum buffer size set by
 set_min_buf_size()

---
 src/server/boundary.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/boundary.rs b/src/server/boundary.rs
index 245e546..8b1659c 100644
--- a/src/server/boundary.rs
+++ b/src/server/boundary.rs
@@ -135,8 +135,10 @@ impl<R> BoundaryReader<R> where R: Read {
     }
 
     pub fn set_min_buf_size(&mut self, min_buf_size: usize) {
-        // ensure the minimum buf size is at least enough to find a boundary with some extra
-        let min_buf_size = cmp::max(self.boundary.len() * 2, min_buf_size);
+        // ensure the minimum buf size is at least enough to find a boundary with some extra;
+        // up to a boundary and its preceding CRLF may be held back at the end of the buffer
+        let min_buf_size = cmp::max(self.boundary.len(), min_buf_size)
+            .saturating_add(self.boundary.len() + 2);
 
         // `MinBuffered` can only make room in the buffer if there is at least as much space
         // again, otherwise it stops reading and the data looks like it ended
-- 
2.43.0


From 22aea1531b015656df95356fbcde6717f4aed47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 23/23] fix: hyper requests with the boundary "utf-8" were not
 accepted

---
 src/server/hyper.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/server/hyper.rs b/src/server/hyper.rs
index 57022dc..f1fe845 100644
--- a/src/server/hyper.rs
+++ b/src/server/hyper.rs
@@ -16,7 +16,7 @@ use hyper::server::{Handler, Request, Response};
 
 pub use hyper::server::Request as HyperRequest;
 
-use hyper::mime::{Mime, TopLevel, SubLevel, Attr, Value};
+use hyper::mime::{Mime, TopLevel, SubLevel, Attr};
 
 use super::{Multipart, HttpRequest};
 
@@ -89,12 +89,7 @@ impl<'a, 'b> HttpRequest for HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
@@ -123,12 +118,7 @@ impl<'r, 'a, 'b> HttpRequest for &'r mut HyperRequest<'a, 'b> {
                     Attr::Boundary => true,
                     _ => false,
                 }
-            ).and_then(|&(_, ref val)|
-                match *val {
-                    Value::Ext(ref val) => Some(&**val),
-                    _ => None,
-                }
-            )
+            ).map(|&(_, ref val)| val.as_str())
         })
     }
 
-- 
2.43.0

