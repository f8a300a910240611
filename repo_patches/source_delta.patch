From 8834cd2cf1bd9ffdd45440fdf90713055f31e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 01/43] fix: reject a header line without a colon instead of
 panicking

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 51e3f52..1ac67c0 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -277,7 +277,7 @@ impl Header {
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
         // After the token we MUST receive a colon.
-        if line[i] != b':' {
+        if i >= line.len() || line[i] != b':' {
             error!(
                 "invalid header line: {}, missing semicolon",
                 String::from_utf8_lossy(line)
-- 
2.43.0


From 36816eb926894a1d619b28afeae545ccb072374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 02/43] fix: stop reading headers when the input ends

---
 wruster/src/http/headers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 1ac67c0..f646bfb 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -228,8 +228,12 @@ impl Header {
         let mut line = Vec::<u8>::new();
         loop {
             let mut header_chunk = Vec::<u8>::new();
-            from.read_until(b'\n', &mut header_chunk)
+            let read = from
+                .read_until(b'\n', &mut header_chunk)
                 .map_err(HttpError::from)?;
+            if read == 0 {
+                return Err(InvalidRequest("unexpected end of headers".to_string()));
+            }
             line.append(&mut header_chunk);
             debug!("header chunk read: {}", String::from_utf8_lossy(&line));
             let len = line.len();
-- 
2.43.0


From 008079460415f737d7eeb808ca4d8e6b008548be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 03/43] fix: accept header fields with an empty value

---
 wruster/src/http/headers.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index f646bfb..521525d 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -288,16 +288,7 @@ impl Header {
             );
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
-        // The header value must have at least one octed.
         let mut header_value_start = i + 1;
-        let header_value_length = line.len() - header_value_start;
-        if header_value_length < 1 {
-            debug!(
-                "invalid header value line: {}",
-                String::from_utf8_lossy(line)
-            );
-            return Err(InvalidRequest("invalid header name value".to_string()));
-        };
         // We don't support folding so the field-value = field-content.
         let mut field_value = String::new();
         // Skip the initial optional white space if any.
-- 
2.43.0


From 1b3f93da2bcd96aaad9f41bc650eac17faaf71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 04/43] fix: remove the optional white space after a header
 value

---
 wruster/src/http/headers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 521525d..ef7b393 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -310,6 +310,8 @@ impl Header {
             }
             field_value.push(c);
         }
+        // The trailing optional white space is not part of the value.
+        let field_value = field_value.trim_end_matches([' ', '\t']).to_string();
         name = normalize_header_name(name);
         let header = Header {
             name,
-- 
2.43.0


From 0b9eed8447f905bedd939d790a7694f58a77f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 05/43] fix: make header names case-insensitive

---
 wruster/src/http/headers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index ef7b393..79d32f1 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -135,7 +135,9 @@ impl Headers {
     ```
     */
     pub fn get(&self, name: &str) -> Option<&Vec<String>> {
-        self.headers.get(name)
+        self.headers
+            .get(name)
+            .or_else(|| self.headers.get(&normalize_header_name(name.to_string())))
     }
 
     /**
@@ -390,7 +392,7 @@ fn normalize_header_name(name: String) -> String {
         if c == char::from(b' ') || c == char::from(b'-') {
             next_alfanum_upper = true;
         }
-        normalized.push(c);
+        normalized.push(c.to_ascii_lowercase());
     }
     normalized
 }
-- 
2.43.0


From b571262b8cde0d42254d0ff87546f27b5218d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 06/43] fix: reject request lines with an invalid target or
 version

---
 wruster/src/http/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a08d922..2f32794 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -267,6 +267,12 @@ impl HttpRequestLine {
         };
 
         let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
+        if uri
+            .chars()
+            .any(|c| c.is_ascii_control() || c.is_ascii_whitespace())
+        {
+            return Err(InvalidRequest("invalid request target".to_string()));
+        }
 
         let mut version = Vec::new();
         from.read_until(b'\n', &mut version)
@@ -279,6 +285,9 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         }
         let version = String::from_utf8_lossy(&version[..version.len() - 2]);
+        if !Self::is_valid_version(&version) {
+            return Err(InvalidRequest(format!("invalid http version: {}", version)));
+        }
 
         Ok(HttpRequestLine {
             method,
@@ -287,6 +296,15 @@ impl HttpRequestLine {
         })
     }
 
+    fn is_valid_version(version: &str) -> bool {
+        // HTTP-version = "HTTP" "/" DIGIT "." DIGIT
+        match version.strip_prefix("HTTP/").map(str::as_bytes) {
+            Some([major, b'.', minor]) => major.is_ascii_digit() && minor.is_ascii_digit(),
+            Some(version) => version == b"2",
+            None => false,
+        }
+    }
+
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
-- 
2.43.0


From 3f62e64eae2f1a385a86ea5248ac102297f38623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 07/43] fix: answer 400 to a Content-Length that is not a
 single number of digits

---
 wruster/src/http/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 2f32794..8cf9c14 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -445,16 +445,21 @@ impl Body {
             Some(lengths) => {
                 if lengths.len() != 1 {
                     let msg = String::from("invalid Content-Length header");
-                    return Err(Unknown(msg));
+                    return Err(InvalidRequest(msg));
                 }
                 &lengths[0]
             }
         };
 
+        // Content-Length = 1*DIGIT, notice that from_str also accepts a sign.
+        if !len.bytes().all(|c| c.is_ascii_digit()) {
+            let msg = format!("invalid Content-Length header, {}", len);
+            return Err(InvalidRequest(msg));
+        }
         let len = match usize::from_str(len) {
             Err(err) => {
                 let msg = format!("invalid Content-Length header, {}", err);
-                return Err(Unknown(msg));
+                return Err(InvalidRequest(msg));
             }
             Ok(size) => size,
         };
-- 
2.43.0


From 1f7ff9fc30fb9234aded3ed58e944576fbd6e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 08/43] fix: write the start line completely when the writer
 takes only a part

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 8cf9c14..189b43a 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -309,7 +309,7 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
         let line = format!("{:#} {} {}\r\n", self.method, self.uri, self.version);
-        to.write(line.as_bytes()).map_err(HttpError::from)?;
+        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
         Ok(())
     }
 }
@@ -849,7 +849,7 @@ impl HttpResponseLine {
         // https://datatracker.ietf.org/doc/html/rfc7230#section-3.1.2
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
-        if let Err(err) = to.write(payload.as_bytes()) {
+        if let Err(err) = to.write_all(payload.as_bytes()) {
             return Err(HttpError::Unknown(err.to_string()));
         };
         Ok(())
-- 
2.43.0


From 6428750cd9e26e4dc1b1017cdeb4ded13fa8a523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 09/43] fix: write exactly one Content-Length header

---
 wruster/src/http/headers.rs |  7 +++++++
 wruster/src/http/mod.rs     | 13 ++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 79d32f1..f52bf83 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -111,6 +111,13 @@ impl Headers {
         values.push(content);
     }
 
+    /// Adds a header to the collection replacing all the ones with the same name.
+    pub(crate) fn set(&mut self, header: Header) {
+        self.headers
+            .retain(|name, _| !name.eq_ignore_ascii_case(&header.name));
+        self.add(header);
+    }
+
     /**
     Returns the values of a header given its name.
 
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 189b43a..6e4aab7 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -135,7 +135,7 @@ impl Request {
 
         start_line.write(to)?;
         if self.body.is_none() {
-            self.headers.add(Header {
+            self.headers.set(Header {
                 name: String::from("Content-Length"),
                 value: String::from("0"),
             })
@@ -641,12 +641,11 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
-        if self.body.is_none() {
-            self.headers.add(Header {
-                name: String::from("Content-Length"),
-                value: String::from("0"),
-            })
-        }
+        let content_length = self.body.as_ref().map_or(0, |body| body.content_length);
+        self.headers.set(Header {
+            name: String::from("Content-Length"),
+            value: content_length.to_string(),
+        });
         self.headers.write(to)?;
         match self.body.as_mut() {
             Some(body) => body.write(to).map_err(HttpError::from),
-- 
2.43.0


From 6b89f0f94de3851c73f3ea52bba8e7c00b71a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 10/43] fix: write exactly the declared length of a body or
 return an error

---
 wruster/src/http/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 6e4aab7..79c78fb 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -386,7 +386,7 @@ impl Body {
     to the ``to`` paramerer.
     */
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
-        let src = &mut self.content;
+        let src = &mut self.content.by_ref().take(self.content_length);
 
         // When the content to write is large (>2MB's) the io::copy function
         // uses buffers that are too short, to avoid that we use this technique:
@@ -396,12 +396,16 @@ impl Body {
             x if x > u64::pow(2, 20) * 2 => {
                 let buff_size = usize::pow(2, 20);
                 let mut dest = BufWriter::with_capacity(buff_size, to);
-                io::copy(src, &mut dest)
+                io::copy(src, &mut dest).and_then(|written| dest.flush().map(|_| written))
             }
             _ => io::copy(src, to),
         };
         match res {
             Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Ok(written) if written < self.content_length => Err(HttpError::Unknown(format!(
+                "body content too short, {} bytes of {}",
+                written, self.content_length
+            ))),
             Ok(_) => Ok(()),
         }
     }
-- 
2.43.0


From c7289472e59318ce6463e9bcec070ffeb4c79a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 11/43] fix: report timeouts and closed connections as such
 wherever they happen

---
 wruster/src/http/headers.rs | 10 +++++-----
 wruster/src/http/mod.rs     | 18 +++++++-----------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index f52bf83..9ea36d5 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -191,7 +191,7 @@ impl Headers {
 
         let written = to.write_all("\r\n".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
@@ -363,19 +363,19 @@ impl Header {
         let mut written = to.write_all(self.name.as_bytes());
         if let Err(err) = written {
             debug!("error writing Header: {:?}", err);
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all(": ".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all(self.value.as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         written = to.write_all("\r\n".as_bytes());
         if let Err(err) = written {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 79c78fb..0757047 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -20,7 +20,7 @@ use headers::*;
 use mime::Mime;
 
 use crate::errors::HttpError;
-use crate::errors::HttpError::{ConnectionClosed, InvalidRequest, Timeout, Unknown};
+use crate::errors::HttpError::{ConnectionClosed, InvalidRequest, Unknown};
 
 /// Contains a HTTP client implementation.
 pub mod client;
@@ -260,7 +260,7 @@ impl HttpRequestLine {
 
         let mut uri = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut uri) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         if uri.len() < 2 {
             return Err(InvalidRequest("invalid request line".to_string()));
@@ -401,7 +401,7 @@ impl Body {
             _ => io::copy(src, to),
         };
         match res {
-            Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Err(err) => Err(HttpError::from(err)),
             Ok(written) if written < self.content_length => Err(HttpError::Unknown(format!(
                 "body content too short, {} bytes of {}",
                 written, self.content_length
@@ -772,11 +772,7 @@ impl HttpResponseLine {
         // Status-Line = HTTP-Version SP Status-Code SP Reason-Phrase CRLF
         let mut http_version = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut http_version) {
-            let err = match err.kind() {
-                io::ErrorKind::TimedOut => Err(Timeout),
-                _ => Err(Unknown(err.to_string())),
-            };
-            return err;
+            return Err(HttpError::from(err));
         };
 
         if http_version.is_empty() {
@@ -788,7 +784,7 @@ impl HttpResponseLine {
         Self::validate_version(&http_version)?;
         let mut status_code = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut status_code) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         let mut status_code = String::from_utf8_lossy(&status_code).to_string();
         if status_code.len() != 4 {
@@ -802,7 +798,7 @@ impl HttpResponseLine {
         let status_code = StatusCode::from(status_code);
         let mut reason_phrase = Vec::new();
         if let Err(err) = from.read_until(b'\n', &mut reason_phrase) {
-            return Err(Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         if reason_phrase.len() < 3 {
             return Err(Unknown(String::from("invalid reason phrase")));
@@ -853,7 +849,7 @@ impl HttpResponseLine {
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
         if let Err(err) = to.write_all(payload.as_bytes()) {
-            return Err(HttpError::Unknown(err.to_string()));
+            return Err(HttpError::from(err));
         };
         Ok(())
     }
-- 
2.43.0


From 97254162ce75d1c86a235df0ea15cb93d17161a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 12/43] fix: accept responses with an empty reason phrase

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 0757047..4be6d1a 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -800,7 +800,7 @@ impl HttpResponseLine {
         if let Err(err) = from.read_until(b'\n', &mut reason_phrase) {
             return Err(HttpError::from(err));
         };
-        if reason_phrase.len() < 3 {
+        if !reason_phrase.ends_with(b"\r\n") {
             return Err(Unknown(String::from("invalid reason phrase")));
         };
         let reason_phrase =
-- 
2.43.0


From c0ab5e8b748854d00eb6d3923150a27fcb606d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 13/43] fix: return an error when the content of a body is
 truncated

---
 wruster/src/http/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 4be6d1a..e9e9baa 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -487,8 +487,9 @@ impl Body {
                 Some(mtype)
             }
         };
-        let c = from.take(len as u64);
-        let content = Box::new(c);
+        let content = Box::new(SizedReader {
+            content: from.take(len as u64),
+        });
         let body = Body {
             content,
             content_type,
@@ -527,6 +528,22 @@ impl Body {
     }
 }
 
+/// Reads a content with a known length, it returns an error, instead of
+/// signaling the end of the content, if the content is shorter.
+struct SizedReader<T: Read> {
+    content: io::Take<T>,
+}
+
+impl<T: Read> Read for SizedReader<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let n = self.content.read(buf)?;
+        if n == 0 && !buf.is_empty() && self.content.limit() > 0 {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+        }
+        Ok(n)
+    }
+}
+
 impl Read for Body {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         match self.content.read(buf) {
-- 
2.43.0


From 7d80fbefda8b4f4fc55ae658be51fc26fef715c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 14/43] fix: do not truncate the timeouts to whole seconds

---
 wruster/src/streams/timeout_stream.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 115b2b0..ea44152 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -113,7 +113,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = read.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         let stream = &self.stream;
@@ -157,7 +157,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = write.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {
@@ -185,7 +185,7 @@ where
 struct Operation {
     timeout: Duration,
     started: Option<Instant>,
-    elapsed_secs: u64,
+    elapsed: Duration,
 }
 
 impl Operation {
@@ -193,17 +193,12 @@ impl Operation {
         Operation {
             timeout,
             started: None,
-            elapsed_secs: 0,
+            elapsed: Duration::ZERO,
         }
     }
 
     fn next_timeout(&mut self) -> Duration {
-        if self.elapsed_secs >= self.timeout.as_secs() {
-            Duration::from_secs(0)
-        } else {
-            let remaining = self.timeout.as_secs() - self.elapsed_secs;
-            Duration::from_secs(remaining)
-        }
+        self.timeout.saturating_sub(self.elapsed)
     }
 
     fn start(&mut self) {
@@ -212,8 +207,7 @@ impl Operation {
 
     fn stop(&mut self) {
         if let Some(started) = self.started {
-            let elapsed = started.elapsed().as_secs();
-            self.elapsed_secs += elapsed;
+            self.elapsed += started.elapsed();
         } else {
             println!("operation not initialized stopped");
         }
-- 
2.43.0


From 31c5f420715d8a1c80937855998918cf724efb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 15/43] fix: apply the write timeout to the whole write, not to
 every wait

---
 wruster/src/streams/cancellable_stream.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 52d1b52..f0de9f0 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -5,7 +5,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc, RwLock,
     },
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use polling::Event;
@@ -119,13 +119,20 @@ where
     fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
         let mut events = Vec::new();
         let timeout = &self.write_timeout.write().unwrap().clone();
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
         let mut bytes_written = 0;
         let buf_len = buf.len();
         while bytes_written < buf_len {
             events.clear();
             self.poller
                 .modify(self.stream.as_raw(), Event::writable(1))?;
-            if self.poller.wait(&mut events, *timeout)? == 0 {
+            // The timeout limits the whole operation, not each one of the waits.
+            let timeout = deadline.map(|d| d.saturating_duration_since(Instant::now()));
+            let ready = match self.poller.wait(&mut events, timeout) {
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                ready => ready?,
+            };
+            if ready == 0 || timeout.is_some_and(|timeout| timeout.is_zero()) {
                 let stop = self.done.load(atomic::Ordering::SeqCst);
                 if stop {
                     return Err(io::Error::from(io::ErrorKind::NotConnected));
-- 
2.43.0


From ae15a121e23921128de706efdc004fbf25b766ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 16/43] fix: read the data already buffered by a stream without
 waiting for more

---
 wruster/src/streams/cancellable_stream.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index f0de9f0..bece233 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -58,6 +58,17 @@ where
     }
 
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
+        // The stream can have data already buffered, e.g.: a decrypted TLS
+        // record, that will not generate any event, so we only wait if there
+        // is nothing to read.
+        match self.stream.read_buf(buf) {
+            Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
+            Ok(0) if self.done.load(Ordering::SeqCst) => {
+                return Err(io::Error::from(io::ErrorKind::NotConnected))
+            }
+            Ok(0) => return Err(io::Error::from(io::ErrorKind::ConnectionReset)),
+            result => return result,
+        }
         self.poller
             .modify(self.stream.as_raw(), Event::readable(1))?;
         let mut events = Vec::new();
-- 
2.43.0


From 31d32c1dd26e4b727156f8771bf7f1beca1e3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 17/43] fix: flush the responses completely within the write
 timeout

---
 wruster/src/lib.rs                        | 10 ++++++--
 wruster/src/streams/cancellable_stream.rs | 29 +++++++++++++++++++++--
 wruster/src/streams/timeout_stream.rs     | 14 ++++++++++-
 3 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a14071f..28cba82 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -532,7 +532,10 @@ where
     let shutdown_stream = stream.clone();
     let mut timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
     let mut resp = Response::from_status(StatusCode::ServiceUnavailable);
-    if let Err(err) = resp.write(&mut timeout_stream) {
+    let written = resp
+        .write(&mut timeout_stream)
+        .and_then(|_| timeout_stream.flush().map_err(HttpError::from));
+    if let Err(err) = written {
         error!("sending too busy to {}: {}", src_addr, err.to_string())
     }
     let s = &*shutdown_stream;
@@ -622,7 +625,10 @@ where
 
     // Write the response.
     let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
-    if let Err(err) = response.write(&mut timeout_stream) {
+    let written = response
+        .write(&mut timeout_stream)
+        .and_then(|_| timeout_stream.flush().map_err(HttpError::from));
+    if let Err(err) = written {
         error!(
             "error writing response to: {}, error info: {}",
             source_addr, err
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index bece233..d4379b7 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -178,6 +178,31 @@ where
         }
         Ok(bytes_written)
     }
+
+    fn flush_int(&self) -> io::Result<()> {
+        let timeout = *self.write_timeout.read().unwrap();
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+        let mut events = Vec::new();
+        loop {
+            match self.stream.flush_data() {
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
+                result => return result,
+            }
+            let timeout = deadline.map(|d| d.saturating_duration_since(Instant::now()));
+            if timeout.is_some_and(|timeout| timeout.is_zero()) {
+                return Err(io::Error::from(io::ErrorKind::TimedOut));
+            }
+            events.clear();
+            self.poller
+                .modify(self.stream.as_raw(), Event::writable(1))?;
+            match self.poller.wait(&mut events, timeout) {
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+                result => {
+                    result?;
+                }
+            }
+        }
+    }
 }
 
 impl<T> io::Read for &CancellableStream<T>
@@ -198,7 +223,7 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
 
@@ -222,6 +247,6 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index ea44152..77e74ea 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -178,7 +178,19 @@ where
 
     fn flush(&mut self) -> io::Result<()> {
         let stream = &mut self.stream;
-        stream.flush()
+        let write = match self.ongoing_write.as_mut() {
+            None => return stream.flush(),
+            Some(operation) => operation,
+        };
+        let next_timeout = write.next_timeout();
+        if next_timeout.is_zero() {
+            return Err(io::Error::from(io::ErrorKind::TimedOut));
+        }
+        stream.set_write_timeout(Some(next_timeout))?;
+        write.start();
+        let res = stream.flush();
+        write.stop();
+        res
     }
 }
 
-- 
2.43.0


From 63c27cdad0b8f72fbb4e689241e6ed27bb5553a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 18/43] fix: do not panic when a TLS session can not be created

---
 wruster/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 28cba82..2460fda 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -267,7 +267,7 @@ impl Server {
         cert: Certificate,
     ) -> ServerResult {
         self.start(addr, routes, move |stream: TcpStream| {
-            let stream = tls::Stream::new(stream, key.clone(), cert.clone()).unwrap();
+            let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
         })
     }
-- 
2.43.0


From b8135d5489dd559e76963358a6f0403c5aa83028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 19/43] fix: return an error when the server can not listen for
 events

---
 wruster/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 2460fda..7478733 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -292,9 +292,9 @@ impl Server {
             Ok(listener) => listener,
             Err(err) => return Err(Box::new(err)),
         };
-        listener.set_nonblocking(true).unwrap();
-        let poller = polling::Poller::new().unwrap();
-        poller.add(&listener, Event::readable(1)).unwrap();
+        listener.set_nonblocking(true)?;
+        let poller = polling::Poller::new()?;
+        poller.add(&listener, Event::readable(1))?;
         let poller = Arc::new(poller);
         let epoller = Arc::clone(&poller);
         self.poller = Some(poller);
-- 
2.43.0


From c8e26a6c1eb72edbc60ca2f3c57072a6725567ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 20/43] fix: keep accepting connections after an error
 accepting one of them

---
 wruster/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 7478733..b189bd0 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -83,6 +83,9 @@ pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_se
 /// Defines the default max time for a response to be written
 pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_secs(60);
 
+// Defines the time to wait before accepting again after an error.
+const ACCEPT_ERROR_DELAY: time::Duration = time::Duration::from_millis(10);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -354,16 +357,27 @@ impl Server {
         loop {
             debug!("tracked streams {}", active_streams.len());
             events.clear();
-            epoller.wait(&mut events, None)?;
+            match epoller.wait(&mut events, None) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+                result => result?,
+            };
             for evt in &events {
                 if evt.key != 1 {
                     continue;
                 }
-                let (stream, src_addr) = match listener.accept() {
-                    Err(err) => return Err(Box::new(err)),
+                let connection = listener.accept();
+                epoller.modify(&listener, Event::readable(1))?;
+                let (stream, src_addr) = match connection {
+                    Err(err) if err.kind() == ErrorKind::WouldBlock => continue,
+                    Err(err) => {
+                        error!("error accepting a connection: {}", err);
+                        // Do not spin if the error persists, e.g.: when there
+                        // are no free file descriptors.
+                        thread::sleep(ACCEPT_ERROR_DELAY);
+                        continue;
+                    }
                     Ok(connection) => connection,
                 };
-                epoller.modify(&listener, Event::readable(1)).unwrap();
                 info!("accepting connection from {}", src_addr);
                 let cconfig = Arc::clone(&routes);
                 let action_timeouts = timeouts.clone();
-- 
2.43.0


From e8685122da55784f006cecc7f1f09e985fbf3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 21/43] fix: do not lose a worker of the pool when an action
 panics

---
 wruster/src/thread_pool/dynamic_pool.rs |  6 +++---
 wruster/src/thread_pool/mod.rs          | 13 ++++++++++++-
 wruster/src/thread_pool/static_pool.rs  |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 76b7437..3144a13 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -7,7 +7,7 @@ use std::time::Duration;
 
 use atomic_refcell::AtomicRefCell;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 type DynamicWorkerFinished = Box<dyn FnOnce() + Send>;
 
@@ -31,12 +31,12 @@ impl DynamicWorker {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            first_action();
+            run_action(first_action);
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
                     Ok(action) => {
-                        action();
+                        run_action(action);
                         debug!("action executed");
                         continue;
                     }
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 7193301..27e2a93 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -1,4 +1,8 @@
-use std::{fmt::Debug, time::Duration};
+use std::{
+    fmt::Debug,
+    panic::{self, AssertUnwindSafe},
+    time::Duration,
+};
 
 mod dynamic_pool;
 mod static_pool;
@@ -9,6 +13,13 @@ type Action = Box<dyn FnOnce() + Send + 'static>;
 
 const DEFAULT_TIMEOUT: Duration = Duration::from_secs(10);
 
+/// Runs an action ensuring that a panic in it does not stop the worker.
+fn run_action(action: Action) {
+    if panic::catch_unwind(AssertUnwindSafe(action)).is_err() {
+        error!("an action executed in the pool panicked");
+    }
+}
+
 pub struct PoolError {
     pub action: Action,
 }
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a419048..67be096 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -3,7 +3,7 @@ use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
 use std::thread;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 struct Worker {
     id: usize,
@@ -20,7 +20,7 @@ impl Worker {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
-                action();
+                run_action(action);
                 debug!("action executed");
                 continue;
             }
-- 
2.43.0


From 22eabf2731215e492a258979aad57e6e44f5b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 22/43] fix: support lists of options in the Connection header

---
 wruster/src/http/headers.rs | 11 +++++++++++
 wruster/src/http/mod.rs     |  8 ++------
 wruster/src/lib.rs          |  8 ++------
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 9ea36d5..f84743e 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -147,6 +147,17 @@ impl Headers {
             .or_else(|| self.headers.get(&normalize_header_name(name.to_string())))
     }
 
+    /// Returns true if any of the values of the Connection header contains the
+    /// given option: Connection = 1#connection-option.
+    pub(crate) fn has_connection_option(&self, option: &str) -> bool {
+        self.get("Connection").is_some_and(|values| {
+            values
+                .iter()
+                .flat_map(|value| value.split(','))
+                .any(|value| value.trim().eq_ignore_ascii_case(option))
+        })
+    }
+
     /**
     Writes the headers to a type implementing [``io::Write``]
     according to the spec: <https://datatracker.ietf.org/doc/html/rfc7230>.
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index e9e9baa..c9d3be2 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -188,11 +188,7 @@ impl Request {
 
     */
     pub fn is_connection_persistent(&self) -> bool {
-        let value = match self.headers.get("Connection") {
-            None => "".to_string(),
-            Some(values) => values[0].to_lowercase(),
-        };
-        if value == "close" {
+        if self.headers.has_connection_option("close") {
             return false;
         }
 
@@ -200,7 +196,7 @@ impl Request {
             return true;
         };
 
-        if self.version == "HTTP/1.0" && value == "keep-alive" {
+        if self.version == "HTTP/1.0" && self.headers.has_connection_option("keep-alive") {
             return true;
         };
         false
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index b189bd0..e339a2f 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -679,11 +679,7 @@ fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
 Evaluates if a request requires a connection to be [persistent](https://httpwg.org/specs/rfc7230.html#rfc.section.6.3).
 */
 fn is_connection_persistent(request: &http::Request) -> bool {
-    let value = match request.headers.get("Connection") {
-        None => "".to_string(),
-        Some(values) => values[0].to_lowercase(),
-    };
-    if value == "close" {
+    if request.headers.has_connection_option("close") {
         return false;
     }
 
@@ -691,7 +687,7 @@ fn is_connection_persistent(request: &http::Request) -> bool {
         return true;
     };
 
-    if request.version == "HTTP/1.0" && value == "keep-alive" {
+    if request.version == "HTTP/1.0" && request.headers.has_connection_option("keep-alive") {
         return true;
     };
     false
-- 
2.43.0


From 6c47b84cac0306e141040a2197b3621c5dc0d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 23/43] fix: do not lose the pipelined requests already read
 from a connection

---
 wruster/src/http/mod.rs | 42 +++++++++++++++++++++++++++++++++++++++--
 wruster/src/lib.rs      |  9 +++++++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index c9d3be2..44828fc 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -1,8 +1,10 @@
+use std::cell::RefCell;
 use std::convert::Infallible;
 use std::fmt;
 use std::fmt::Debug;
 use std::io::{self, BufReader, BufWriter};
 use std::io::{prelude::*, Cursor};
+use std::rc::Rc;
 use std::str::FromStr;
 
 /// Contains the definition of the errors used in the Http module.
@@ -61,8 +63,16 @@ impl Request {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> HttpResult<Request> {
+        Request::read_from_shared(SharedReader::new(from))
+    }
+
+    /// Reads a request from a reader that can be used again to read the next
+    /// request once the body of this one has been read.
+    pub(crate) fn read_from_shared<T: io::Read + 'static>(
+        shared: SharedReader<T>,
+    ) -> HttpResult<Request> {
         debug!("parsing request");
-        let mut reader = io::BufReader::new(from);
+        let mut reader = shared.0.borrow_mut();
         let request_line = match HttpRequestLine::read_from(&mut reader) {
             Ok(request) => request,
             Err(err) => return Err(err),
@@ -70,8 +80,9 @@ impl Request {
         debug!("request line parsed: {:?}", request_line);
         let headers = Headers::read_from(&mut reader)?;
         debug!("headers parsed: {:?}", headers);
+        drop(reader);
 
-        let body = Body::read_from(reader, &headers)?;
+        let body = Body::read_from(shared, &headers)?;
         debug!("body read: {:?}", body);
 
         let request = Request {
@@ -203,6 +214,33 @@ impl Request {
     }
 }
 
+/// A buffered reader shared by the consecutive requests of a connection, so the
+/// bytes that were already buffered when a request ends are not lost.
+pub(crate) struct SharedReader<T: Read>(Rc<RefCell<BufReader<T>>>);
+
+impl<T: Read> SharedReader<T> {
+    pub(crate) fn new(from: T) -> Self {
+        SharedReader(Rc::new(RefCell::new(BufReader::new(from))))
+    }
+
+    /// Replaces the underlying reader keeping the bytes already buffered.
+    pub(crate) fn replace(&self, from: T) {
+        *self.0.borrow_mut().get_mut() = from;
+    }
+}
+
+impl<T: Read> Clone for SharedReader<T> {
+    fn clone(&self) -> Self {
+        SharedReader(Rc::clone(&self.0))
+    }
+}
+
+impl<T: Read> Read for SharedReader<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
+
 /// Converts an immutable reference to a Request given [``mime::Mime``] type, a
 /// [``HttpMethod``] and a url.
 pub trait IntoRequest {
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index e339a2f..52151aa 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -569,10 +569,14 @@ fn handle_conversation<T>(
 {
     debug!("handling conversation with {}", source_addr);
     let mut connection_open = true;
+    // All the requests in a connection share the same reader, because it can
+    // buffer bytes of the requests following the current one.
+    let reader = SharedReader::new(TimeoutStream::from(stream.clone(), None, None));
     while connection_open {
         let handle_stream = stream.clone();
         connection_open = handle_connection(
             handle_stream,
+            reader.clone(),
             Arc::clone(&routes),
             source_addr,
             timeouts.clone(),
@@ -592,6 +596,7 @@ fn handle_conversation<T>(
 
 fn handle_connection<T>(
     stream: ObservedStream<T>,
+    reader: SharedReader<TimeoutStream<ObservedStream<T>>>,
     routes: Arc<Router>,
     source_addr: SocketAddr,
     timeouts: Timeouts,
@@ -604,9 +609,9 @@ where
     let write_timeout = Some(timeouts.write_response_timeout);
 
     let resp_stream = stream.clone();
-    let timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
+    reader.replace(TimeoutStream::from(stream, read_timeout, write_timeout));
 
-    let (request, mut response) = match Request::read_from(timeout_stream) {
+    let (request, mut response) = match Request::read_from_shared(reader) {
         Ok(mut request) => {
             connection_open = is_connection_persistent(&request);
             let response = run_action(&mut request, routes);
-- 
2.43.0


From 852b63d2461ce7ae02745f242866be40f225689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 24/43] fix: answer the requests in progress when the server
 shuts down

---
 wruster/src/lib.rs                        | 6 ++++--
 wruster/src/streams/cancellable_stream.rs | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 52151aa..e3d838c 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -406,7 +406,9 @@ impl Server {
                 for p in pending {
                     match p.upgrade() {
                         Some(p) => {
-                            match p.shutdown(net::Shutdown::Both) {
+                            // Close only the reading side, so the requests in
+                            // progress can be answered.
+                            match p.shutdown(net::Shutdown::Read) {
                                 Ok(()) => debug!("pending active connection closed"),
                                 Err(err) => {
                                     error!("error closing a pending active connection {}", err)
@@ -572,7 +574,7 @@ fn handle_conversation<T>(
     // All the requests in a connection share the same reader, because it can
     // buffer bytes of the requests following the current one.
     let reader = SharedReader::new(TimeoutStream::from(stream.clone(), None, None));
-    while connection_open {
+    while connection_open && !stream.is_shutdown() {
         let handle_stream = stream.clone();
         connection_open = handle_connection(
             handle_stream,
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index d4379b7..ca8b58b 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -57,6 +57,11 @@ where
         self.stream.shutdown(how)
     }
 
+    /// Returns true if [Self::shutdown] has been called.
+    pub fn is_shutdown(&self) -> bool {
+        self.done.load(Ordering::SeqCst)
+    }
+
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
         // The stream can have data already buffered, e.g.: a decrypted TLS
         // record, that will not generate any event, so we only wait if there
-- 
2.43.0


From 1cc5c3f19fd6978dc051f2f80696158acd120929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 25/43] fix: skip the unread part of a body taken out of the
 request by a handler

---
 wruster/src/http/mod.rs | 42 ++++++++++++++++++++++++++++++++++-------
 wruster/src/lib.rs      | 10 ++++++++++
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 44828fc..fcba8c2 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -1,4 +1,4 @@
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 use std::convert::Infallible;
 use std::fmt;
 use std::fmt::Debug;
@@ -72,7 +72,7 @@ impl Request {
         shared: SharedReader<T>,
     ) -> HttpResult<Request> {
         debug!("parsing request");
-        let mut reader = shared.0.borrow_mut();
+        let mut reader = shared.reader.borrow_mut();
         let request_line = match HttpRequestLine::read_from(&mut reader) {
             Ok(request) => request,
             Err(err) => return Err(err),
@@ -82,7 +82,9 @@ impl Request {
         debug!("headers parsed: {:?}", headers);
         drop(reader);
 
+        let body_left = Rc::clone(&shared.body_left);
         let body = Body::read_from(shared, &headers)?;
+        body_left.set(body.as_ref().map_or(0, |body| body.content_length));
         debug!("body read: {:?}", body);
 
         let request = Request {
@@ -216,28 +218,54 @@ impl Request {
 
 /// A buffered reader shared by the consecutive requests of a connection, so the
 /// bytes that were already buffered when a request ends are not lost.
-pub(crate) struct SharedReader<T: Read>(Rc<RefCell<BufReader<T>>>);
+pub(crate) struct SharedReader<T: Read> {
+    reader: Rc<RefCell<BufReader<T>>>,
+    // Number of bytes of the body of the current request not read yet.
+    body_left: Rc<Cell<u64>>,
+}
 
 impl<T: Read> SharedReader<T> {
     pub(crate) fn new(from: T) -> Self {
-        SharedReader(Rc::new(RefCell::new(BufReader::new(from))))
+        SharedReader {
+            reader: Rc::new(RefCell::new(BufReader::new(from))),
+            body_left: Rc::new(Cell::new(0)),
+        }
+    }
+
+    /// Reads what is left of the body of the current request, regardless of who
+    /// owns that body.
+    pub(crate) fn skip_body(&mut self) -> io::Result<()> {
+        let left = self.body_left.get();
+        if left == 0 {
+            return Ok(());
+        }
+        match io::copy(&mut self.take(left), &mut io::sink())? {
+            skipped if skipped < left => Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
+            _ => Ok(()),
+        }
     }
 
     /// Replaces the underlying reader keeping the bytes already buffered.
     pub(crate) fn replace(&self, from: T) {
-        *self.0.borrow_mut().get_mut() = from;
+        *self.reader.borrow_mut().get_mut() = from;
     }
 }
 
 impl<T: Read> Clone for SharedReader<T> {
     fn clone(&self) -> Self {
-        SharedReader(Rc::clone(&self.0))
+        SharedReader {
+            reader: Rc::clone(&self.reader),
+            body_left: Rc::clone(&self.body_left),
+        }
     }
 }
 
 impl<T: Read> Read for SharedReader<T> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        self.0.borrow_mut().read(buf)
+        let n = self.reader.borrow_mut().read(buf)?;
+        self.body_left
+            .set(self.body_left.get().saturating_sub(n as u64));
+        Ok(n)
     }
 }
 
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index e3d838c..1758c96 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -611,6 +611,7 @@ where
     let write_timeout = Some(timeouts.write_response_timeout);
 
     let resp_stream = stream.clone();
+    let mut body_reader = reader.clone();
     reader.replace(TimeoutStream::from(stream, read_timeout, write_timeout));
 
     let (request, mut response) = match Request::read_from_shared(reader) {
@@ -656,6 +657,15 @@ where
         );
         return false;
     };
+
+    // The handler could have taken the body out of the request, ensure that
+    // there is nothing left of it before reading the next request.
+    if connection_open {
+        if let Err(err) = body_reader.skip_body() {
+            error!("error reading request body, error info: {}", err);
+            return false;
+        }
+    }
     connection_open
 }
 
-- 
2.43.0


From fe3b0810d4d155561b169b11d586f26508fe96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 26/43] fix: route a request to the most concrete parent with a
 handler for the method

---
 wruster/src/router/mod.rs  | 16 ++++++++++++----
 wruster/src/router/trie.rs |  2 ++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/wruster/src/router/mod.rs b/wruster/src/router/mod.rs
index f60ec9d..3ced13f 100644
--- a/wruster/src/router/mod.rs
+++ b/wruster/src/router/mod.rs
@@ -69,11 +69,19 @@ impl Router {
 
     pub(crate) fn get_prefix(&self, route: String, method: HttpMethod) -> Option<Arc<HttpHandler>> {
         let routes = self.routes.borrow();
-        let method_actions = match routes.get_value_prefix(route.as_bytes()) {
-            None => return None,
-            Some(actions) => actions,
+        // The parents of a path are the ones that end where one of its
+        // segments ends, that is, before or after a separator.
+        let is_parent = |end: usize| {
+            end == route.len()
+                || route.as_bytes()[end] == b'/'
+                || (end > 0 && route.as_bytes()[end - 1] == b'/')
         };
-        method_actions.get_action(method)
+        // Return the most concrete parent with a handler for the method.
+        let mut ends = (0..=route.len()).rev().filter(|end| is_parent(*end));
+        ends.find_map(|end| {
+            let method_actions = routes.get_value(&route.as_bytes()[..end])?;
+            method_actions.get_action(method)
+        })
     }
 }
 
diff --git a/wruster/src/router/trie.rs b/wruster/src/router/trie.rs
index 22ac6fb..386df57 100644
--- a/wruster/src/router/trie.rs
+++ b/wruster/src/router/trie.rs
@@ -40,6 +40,7 @@ impl<T> Trie<T> {
         child.move_value_out(&key[1..])
     }
 
+    #[allow(dead_code)]
     pub fn get_value_prefix(&self, key: &[u8]) -> Option<&T> {
         if key.is_empty() {
             return None;
@@ -109,6 +110,7 @@ impl<T> Node<T> {
         child.get_value(&key[1..])
     }
 
+    #[allow(dead_code)]
     fn get_value_prefix<'a>(&'a self, key: &[u8], prefix_value: Option<&'a T>) -> Option<&T> {
         if key.is_empty() {
             if self.value.is_none() {
-- 
2.43.0


From e75489714e1200eca14beacbea929ed42f6912d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 27/43] fix: do not treat the query of a request as part of its
 path

---
 wruster/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 1758c96..8d233f1 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -670,7 +670,13 @@ where
 }
 
 fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
-    let req_path = PathBuf::from(request.uri.clone());
+    // The query is not part of the path.
+    let (path, query) = match request.uri.find('?') {
+        Some(start) => request.uri.split_at(start),
+        None => (request.uri.as_str(), ""),
+    };
+    let query = query.to_string();
+    let req_path = PathBuf::from(path);
     let normalized = match req_path.normalize() {
         Ok(path) => path,
         Err(err) => {
@@ -688,7 +694,7 @@ fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
         Some(action) => action,
         None => return Response::from_status(StatusCode::NotFound),
     };
-    request.uri = String::from(normalized);
+    request.uri = String::from(normalized) + &query;
     action(request)
 }
 
-- 
2.43.0


From 287c626438883debf8ae32f87c7f90a8419972b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 28/43] fix: do not serve files outside of the static directory

---
 wruster_handlers/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index b87f6f3..f3989d1 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -4,7 +4,10 @@ new handlers in a wruster web server.
 */
 use std::fs;
 use std::io::Read;
-use std::{io, path::PathBuf};
+use std::{
+    io,
+    path::{Component, Path, PathBuf},
+};
 
 #[macro_use]
 extern crate log;
@@ -44,6 +47,13 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
         uri = &uri[1..]
     }
+    // Only serve files that are inside the directory.
+    let is_inside = Path::new(uri)
+        .components()
+        .all(|component| matches!(component, Component::Normal(_) | Component::CurDir));
+    if !is_inside {
+        return Response::from_status(StatusCode::NotFound);
+    }
     let mut path = base_path;
     path.push(uri);
 
-- 
2.43.0


From 27078b1c2b06fe73a317426b2eeb728b4ea2198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 29/43] fix: answer not found when the static path is not a
 file

---
 wruster_handlers/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index f3989d1..ec97656 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -67,6 +67,10 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
     };
 
+    if !metadata.is_file() {
+        return Response::from_status(StatusCode::NotFound);
+    }
+
     let content = match fs::File::open(&path) {
         Ok(content) => content,
         Err(err) => {
-- 
2.43.0


From 88767689b63283e34e2907b296a408a55257f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 30/43] fix: do not panic when the static directory can not be
 accessed

---
 wruster_handlers/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index ec97656..7ae36f3 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -39,7 +39,13 @@ server.wait().unwrap();
 ```
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
-    let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
+    let base_path: PathBuf = match PathBuf::from(dir).canonicalize() {
+        Ok(path) => path,
+        Err(err) => {
+            error!("error accessing the directory {}: {}", dir, err);
+            return Response::from_status(StatusCode::InternalServerError);
+        }
+    };
     let mut uri = request.uri.as_str();
     if uri.starts_with('/') {
         if uri.len() < 2 {
-- 
2.43.0


From 8aedd5e23704c4c763caa4f656e4b3567d99b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 31/43] fix: find the private key in a file that contains other
 items before it

---
 wruster/src/streams/tls/mod.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 4077332..2894c70 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -207,18 +207,22 @@ impl PrivateKey {
             }
         })?;
         let mut reader = BufReader::new(keyfile);
-        match rustls_pemfile::read_one(&mut reader)? {
-            Some(rustls_pemfile::Item::RSAKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            None => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
-            _ => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
+        loop {
+            match rustls_pemfile::read_one(&mut reader)? {
+                Some(
+                    rustls_pemfile::Item::RSAKey(key)
+                    | rustls_pemfile::Item::PKCS8Key(key)
+                    | rustls_pemfile::Item::ECKey(key),
+                ) => return Ok(PrivateKey(rustls::PrivateKey(key))),
+                None => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::Other,
+                        format!("no private key found in {} ", path),
+                    ))
+                }
+                // Skip the items that are not a private key.
+                Some(_) => continue,
+            }
         }
     }
 }
-- 
2.43.0


From 1429392ec35bcaacbc6835f40bcbe69fb1de9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 32/43] fix: store the new resource when the connection pool is
 full

---
 wruster/src/http/client/connection_pool.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index b66be95..d535459 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -114,12 +114,10 @@ where
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
         let mut connections = self.resources.write().unwrap();
         let connections = connections.borrow_mut();
-        match connections.len() {
-            MAX_RESOURCES => Self::remove_lru(connections),
-            _ => {
-                connections.insert(key.to_string(), connection);
-            }
+        if connections.len() == MAX_RESOURCES && !connections.contains_key(key) {
+            Self::remove_lru(connections);
         }
+        connections.insert(key.to_string(), connection);
     }
 
     /**
-- 
2.43.0


From b6e2c67cf6ffa99883898bb41225b9fa6bfcfd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 33/43] fix: return an error when starting a TLS server with an
 unusable key

---
 wruster/src/lib.rs             |  3 +++
 wruster/src/streams/tls/mod.rs | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 8d233f1..94e23c5 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -269,6 +269,9 @@ impl Server {
         key: PrivateKey,
         cert: Certificate,
     ) -> ServerResult {
+        // Fail now, and not in every connection, if the key or the certificate
+        // are not valid.
+        tls::Stream::config(key.clone(), cert.clone())?;
         self.start(addr, routes, move |stream: TcpStream| {
             let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 2894c70..6656d30 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -27,12 +27,7 @@ impl Stream {
         private_key: PrivateKey,
         cert: Certificate,
     ) -> Result<Self, io::Error> {
-        let cert_chain = vec![cert.0];
-        let tls_config = ServerConfig::builder()
-            .with_safe_defaults()
-            .with_no_client_auth()
-            .with_single_cert(cert_chain, private_key.0)
-            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
+        let tls_config = Self::config(private_key, cert)?;
         let plain_stream = stream.try_clone()?;
         let tls_config = Arc::new(tls_config);
         let connection = ServerConnection::new(Arc::clone(&tls_config))
@@ -45,6 +40,17 @@ impl Stream {
         })
     }
 
+    /// Returns the configuration of a TLS server that uses the given key and
+    /// certificate or an error if they can not be used.
+    pub fn config(private_key: PrivateKey, cert: Certificate) -> Result<ServerConfig, io::Error> {
+        let cert_chain = vec![cert.0];
+        ServerConfig::builder()
+            .with_safe_defaults()
+            .with_no_client_auth()
+            .with_single_cert(cert_chain, private_key.0)
+            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))
+    }
+
     pub fn as_raw(&self) -> std::os::unix::prelude::RawFd {
         self.plain_stream.as_raw()
     }
-- 
2.43.0


From fa48f9f5032dd494f80a6e501a7acc76c0f935a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 34/43] fix: do not reuse a connection when its response could
 not be read

---
 wruster/src/http/client/mod.rs | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 73315f7..f75425c 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -49,12 +49,13 @@ impl Drop for ClientResponse {
     fn drop(&mut self) {
         if let Some(pool) = self.pool.upgrade() {
             if let Some(body) = self.response.body.as_mut() {
-                body.ensure_read().consume_error(|err| {
+                if let Err(err) = body.ensure_read() {
                     error!(
                         "error ensuring body in request has completely read: {}",
                         err
                     );
-                });
+                    return;
+                }
             }
 
             let pool = match pool.lock() {
@@ -150,20 +151,3 @@ impl Drop for Client {
         }
     }
 }
-
-trait ConsumeIfError<F, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E);
-}
-
-impl<T, E, F> ConsumeIfError<F, E> for Result<T, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E),
-    {
-        if let Err(err) = self {
-            consumer(err)
-        }
-    }
-}
-- 
2.43.0


From 3add6e55e878060052aa523537d7aabd3afcc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 35/43] fix: reuse a client connection only if both sides keep
 it open

---
 wruster/src/http/client/mod.rs | 14 ++++++++++++--
 wruster/src/http/mod.rs        | 15 ++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index f75425c..52aaac5 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -29,6 +29,8 @@ pub struct ClientResponse {
     conn: TcpStream,
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
+    reusable: bool,
+    has_body: bool,
 }
 
 impl Deref for ClientResponse {
@@ -47,6 +49,11 @@ impl DerefMut for ClientResponse {
 
 impl Drop for ClientResponse {
     fn drop(&mut self) {
+        // The body could have been moved out of the response without reading it.
+        let body_taken = self.has_body && self.response.body.is_none();
+        if !self.reusable || body_taken {
+            return;
+        }
         if let Some(pool) = self.pool.upgrade() {
             if let Some(body) = self.response.body.as_mut() {
                 if let Err(err) = body.ensure_read() {
@@ -90,8 +97,9 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+        let persistent = request.is_connection_persistent();
         let conn = {
-            match request.is_connection_persistent() {
+            match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                     match pool.get(addr) {
@@ -111,7 +119,7 @@ impl<'a> Client {
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let stream = Box::new(stream);
-        let response = match Response::read_from(stream) {
+        let (response, reusable) = match Response::read_from_connection(stream) {
             Ok(response) => response,
             Err(err) => return Err(err),
         };
@@ -119,6 +127,8 @@ impl<'a> Client {
         // the connection to the pool here.
         let response_pool = Arc::clone(&self.connection_pool);
         let response = ClientResponse {
+            has_body: response.body.is_some(),
+            reusable: reusable && persistent,
             response,
             conn: response_conn,
             pool: Arc::downgrade(&response_pool),
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index fcba8c2..b85e361 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -793,6 +793,14 @@ impl Response {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> Result<Response, HttpError> {
+        Response::read_from_connection(from).map(|(response, _)| response)
+    }
+
+    /// Reads a response and returns also if the connection it has been read from
+    /// can be used for another request after reading the body of the response.
+    pub(crate) fn read_from_connection<T: io::Read + 'static>(
+        from: T,
+    ) -> Result<(Response, bool), HttpError> {
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec6.html
         //    Status-Line
         //                    *(( general-header
@@ -811,13 +819,18 @@ impl Response {
         let body = Body::read_from(reader, &headers)?;
         debug!("body read, length: {:?}", body);
 
+        // Without a length the body ends when the connection is closed.
+        let reusable = headers.get("Content-Length").is_some()
+            && !headers.has_connection_option("close")
+            && (status_line.http_version == "HTTP/1.1"
+                || headers.has_connection_option("keep-alive"));
         let response = Response {
             body,
             status: status_line.status_code,
             headers,
         };
         debug!("response parsed: {:?}", response);
-        Ok(response)
+        Ok((response, reusable))
     }
 }
 
-- 
2.43.0


From 41fd234b9c0640f6e37e06d564c176a9a36dc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 36/43] fix: do not reuse a client connection that is closed or
 has unread data

---
 wruster/src/http/client/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 52aaac5..b59074c 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -1,4 +1,5 @@
 #![allow(missing_docs)]
+use std::io::ErrorKind;
 use std::net::SocketAddr;
 use std::net::TcpStream;
 use std::net::ToSocketAddrs;
@@ -102,9 +103,9 @@ impl<'a> Client {
             match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
-                    match pool.get(addr) {
-                        Some(conn) => conn.resource(),
-                        None => Self::connect(addr).map(Arc::new)?,
+                    match pool.get(addr).map(PoolResource::resource) {
+                        Some(conn) if Self::is_idle(&conn) => conn,
+                        _ => Self::connect(addr).map(Arc::new)?,
                     }
                 }
                 false => Self::connect(addr).map(Arc::new)?,
@@ -137,6 +138,17 @@ impl<'a> Client {
         Ok(response)
     }
 
+    /// Returns true if the connection is open and there is nothing to read in it,
+    /// anything that could be read does not belong to the next response.
+    fn is_idle(conn: &TcpStream) -> bool {
+        if conn.set_nonblocking(true).is_err() {
+            return false;
+        }
+        let pending = conn.peek(&mut [0]);
+        let is_idle = matches!(pending, Err(err) if err.kind() == ErrorKind::WouldBlock);
+        is_idle && conn.set_nonblocking(false).is_ok()
+    }
+
     fn connect(addr: &str) -> Result<TcpStream, HttpError> {
         let addrs = addr.to_socket_addrs().map_err(HttpError::from)?;
         let addrs = addrs.collect::<Vec<SocketAddr>>();
-- 
2.43.0


From 88cd560259b8e830deb4cf8a57f6a2b40b8886a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 37/43] hooks: expose the pools to the model checking harness

---
 wruster/src/http/client/mod.rs | 5 +++++
 wruster/src/lib.rs             | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index b59074c..a6029d2 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -16,6 +16,11 @@ use crate::streams::timeout_stream::TimeoutStream;
 
 mod connection_pool;
 
+#[cfg(wruster_mc)]
+pub(crate) mod mc_hooks {
+    pub use super::connection_pool::{Pool as ConnectionPool, PoolResource};
+}
+
 #[cfg(test)]
 mod tests;
 
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 94e23c5..1e589a2 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -1,5 +1,6 @@
 #![warn(missing_docs)]
 #![warn(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 
 /*!
 Experimental simple web sever that includes a http
@@ -77,6 +78,14 @@ pub mod test_utils;
 mod streams;
 mod thread_pool;
 
+/// Gives the model checking harness access to internal types.
+#[allow(missing_docs)]
+#[cfg(wruster_mc)]
+pub mod mc_hooks {
+    pub use crate::http::client::mc_hooks::*;
+    pub use crate::thread_pool::{Pool as ThreadPool, PoolError};
+}
+
 /// Defines the default max time for a request to be read
 pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_secs(30);
 
-- 
2.43.0


From c3e502a97d019ead791ccf0e691d536a3d120971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:06 +0000
Subject: [PATCH 38/43] fix: treat a timeout too long for the clock as no
 timeout when reading

---
 wruster/src/streams/cancellable_stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index ca8b58b..cb2850d 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -78,6 +78,9 @@ where
             .modify(self.stream.as_raw(), Event::readable(1))?;
         let mut events = Vec::new();
         let timeout = &self.read_timeout.write().unwrap().clone();
+        // A timeout that can not be represented as a point in time is the same
+        // as no timeout, the poller only returns an error for it.
+        let timeout = &timeout.filter(|timeout| Instant::now().checked_add(*timeout).is_some());
         let mut bytes_read = 0;
         let buf_len = buf.len();
         if self.poller.wait(&mut events, *timeout)? == 0 {
-- 
2.43.0


From 81dd9b0aa9cc50d71e363bf40f6704e27a31aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 39/43] fix: do not wait for the client again once its response
 could not be flushed

---
 wruster/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 1e589a2..03abfaf 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -595,6 +595,11 @@ fn handle_conversation<T>(
             source_addr,
             timeouts.clone(),
         );
+        // The responses are already flushed, if that was not possible there is
+        // no point in waiting for the client again.
+        if !connection_open {
+            break;
+        }
         if let Err(err) = stream.flush() {
             error!("error flushing to: {}, {}", source_addr, err);
             return;
-- 
2.43.0


From 9ea0c98bb2c4a8641e7c57dd1a558227ee14e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 40/43] fix: reject a status line whose version or code is not
 made of digits

---
 wruster/src/http/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index b85e361..ad3f900 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -872,17 +872,22 @@ impl HttpResponseLine {
         }
 
         let mut http_version = String::from_utf8_lossy(&http_version).to_string();
-        http_version = http_version.trim_end().to_string();
+        if http_version.ends_with(' ') {
+            http_version.pop();
+        }
         Self::validate_version(&http_version)?;
         let mut status_code = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut status_code) {
             return Err(HttpError::from(err));
         };
         let mut status_code = String::from_utf8_lossy(&status_code).to_string();
-        if status_code.len() != 4 {
+        if status_code.len() != 4 || status_code.pop() != Some(' ') {
+            return Err(Unknown(format!("invalid status code: {}", status_code)));
+        };
+        // Status-Code = 3DIGIT, notice that parse also accepts a sign.
+        if !status_code.bytes().all(|c| c.is_ascii_digit()) {
             return Err(Unknown(format!("invalid status code: {}", status_code)));
         };
-        status_code = status_code.trim_end().to_string();
         let status_code = match status_code.parse::<usize>() {
             Err(error) => return Err(Unknown(error.to_string())),
             Ok(code) => code,
@@ -920,6 +925,11 @@ impl HttpResponseLine {
             return Err(Unknown(format!("invalid http version: {}", version)));
         }
 
+        // Notice that parse also accepts a sign.
+        if !parts[1].bytes().all(|c| c.is_ascii_digit() || c == b'.') {
+            return Err(Unknown(format!("invalid http version: {}", version)));
+        }
+
         if let Err(error) = digits_parts[0].parse::<u8>() {
             return Err(Unknown(format!(
                 "invalid http version: {} {}",
-- 
2.43.0


From 1783c55f92c04aa539524823c42804ec9fae4168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 41/43] fix: read what a handler left of a body it took also
 before closing the connection

Closing a socket with unread data resets the connection, so a client still
sending the body of its last request could lose the answer.
---
 wruster/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 03abfaf..4696915 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -676,12 +676,11 @@ where
     };
 
     // The handler could have taken the body out of the request, ensure that
-    // there is nothing left of it before reading the next request.
-    if connection_open {
-        if let Err(err) = body_reader.skip_body() {
-            error!("error reading request body, error info: {}", err);
-            return false;
-        }
+    // there is nothing left of it before reading the next request or closing
+    // the connection: closing it with unread data resets it.
+    if let Err(err) = body_reader.skip_body() {
+        error!("error reading request body, error info: {}", err);
+        return false;
     }
     connection_open
 }
-- 
2.43.0


From c7e1a83a60b485c5299cb6da63db25f94c67715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 42/43] fix: treat the names of the headers added by a program
 as case-insensitive

---
 wruster/src/http/headers.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index f84743e..c27595d 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -12,7 +12,8 @@ use super::MessageChar;
 #[derive(Debug)]
 /// Holds a collection of HTTP headers.
 pub struct Headers {
-    headers: HashMap<String, Vec<String>>,
+    // The names and the values of the headers, by their names in lower case.
+    headers: HashMap<String, (String, Vec<String>)>,
 }
 
 impl Headers {
@@ -55,7 +56,7 @@ impl Headers {
     ```
     */
     pub fn iter(&self) -> impl Iterator<Item = (&String, &Vec<String>)> {
-        self.headers.iter()
+        self.headers.values().map(|(name, values)| (name, values))
     }
 
     /**
@@ -107,14 +108,14 @@ impl Headers {
     pub fn add(&mut self, header: Header) {
         let name = header.name;
         let content = header.value;
-        let values = self.headers.entry(name).or_default();
+        let key = name.to_ascii_lowercase();
+        let (_, values) = self.headers.entry(key).or_insert((name, Vec::new()));
         values.push(content);
     }
 
     /// Adds a header to the collection replacing all the ones with the same name.
     pub(crate) fn set(&mut self, header: Header) {
-        self.headers
-            .retain(|name, _| !name.eq_ignore_ascii_case(&header.name));
+        self.headers.remove(&header.name.to_ascii_lowercase());
         self.add(header);
     }
 
@@ -143,8 +144,8 @@ impl Headers {
     */
     pub fn get(&self, name: &str) -> Option<&Vec<String>> {
         self.headers
-            .get(name)
-            .or_else(|| self.headers.get(&normalize_header_name(name.to_string())))
+            .get(&name.to_ascii_lowercase())
+            .map(|(_, values)| values)
     }
 
     /// Returns true if any of the values of the Connection header contains the
-- 
2.43.0


From 10d6a990652fad002d7dad090183eaef876a0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 43/43] fix: do not panic ensuring the read of a body read
 beyond its length

---
 wruster/src/http/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index ad3f900..8ededf5 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -565,7 +565,8 @@ impl Body {
     Ensures the content length specified in the body is read from the underlying reader.
     */
     pub fn ensure_read(&mut self) -> Result<(), HttpError> {
-        if self.bytes_read == self.content_length {
+        // The content can be longer than the length of the body.
+        if self.bytes_read >= self.content_length {
             return Ok(());
         }
         let n = self.content_length - self.bytes_read;
-- 
2.43.0

