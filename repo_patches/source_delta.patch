From 58caca1acc2dbfc663e7f077f0cbb3f709880b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 01/16] fix: serialize boolean true as "true" in paths, queries
 and headers

---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From 553906eeb06477c100c0eb0e9aeac1d3de1a421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 02/16] fix: percent-decode path values as UTF-8 bytes with
 strict hex digits

---
 src/deserializers/url_path.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..45f6ab1 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -338,26 +338,33 @@ where
 }
 
 fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::new();
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = track!(bytes
                 .next()
+                .and_then(hex_digit)
                 .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
+            let h1 = track!(bytes
                 .next()
+                .and_then(hex_digit)
                 .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
+            decoded.push(h0 * 16 + h1);
             continue;
         }
-        decoded.push(c);
+        decoded.push(b);
+    }
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
+
+fn hex_digit(b: u8) -> Option<u8> {
+    match b {
+        b'0'..=b'9' => Some(b - b'0'),
+        b'a'..=b'f' => Some(b - b'a' + 10),
+        b'A'..=b'F' => Some(b - b'A' + 10),
+        _ => None,
     }
-    Ok(decoded)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2055c594d60edb4ebec66ae1516e9f75ae28ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 03/16] fix: decode the unit path that the client side can
 serialize

---
 src/deserializers/url_path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 45f6ab1..5a0e7d9 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -218,11 +218,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track_assert!(!self.in_seq, ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From 370cc276fc9f20b05b7b4bf355afcd3eb5ed7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 04/16] fix: skip the value of an unknown query parameter

---
 src/deserializers/url_query.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..1b79b33 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        let _v = track!(self.next_str())?;
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From c8514ee135ed405b3c72e95ce5398c8f07d93667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 05/16] fix: refuse path values that the URL path cannot carry

---
 src/serializers/url_path.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..f563e94 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -31,10 +31,20 @@ impl<'a> UrlPathSerializer<'a> {
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
+        track_assert!(self.is_representable(value), ErrorKind::Invalid);
         self.segments.push(value);
         self.index += 1;
         Ok(())
     }
+    // `url` drops dot segments and whitespace controls silently,
+    // and an empty first segment would be merged with the following one.
+    fn is_representable(&self, value: &str) -> bool {
+        match value {
+            "" => self.index != 0 || self.entry_point.segments().len() == 1,
+            "." | ".." => false,
+            _ => !has_whitespace_control(value.as_bytes()),
+        }
+    }
     fn finish(&mut self) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(self.append_until_next_var(), ErrorKind::Invalid);
@@ -253,6 +263,15 @@ impl<'a, 'b> ser::SerializeTupleVariant for &'a mut UrlPathSerializer<'b> {
     }
 }
 
+fn has_whitespace_control(value: &[u8]) -> bool {
+    for b in value {
+        if *b == b'\t' || *b == b'\n' || *b == b'\r' {
+            return true;
+        }
+    }
+    false
+}
+
 #[cfg(test)]
 mod test {
     use url::Url;
-- 
2.43.0


From 5d9efe7877be54034eda01599b28a9b2fc52f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 06/16] fix: refuse header names and values that would corrupt
 the message head

---
 src/serializers/http_header.rs | 46 ++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..d6dbc6e 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -22,14 +22,17 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
-    fn append(&mut self, key_or_val: Cow<str>) {
+    fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
+            track_assert!(is_field_name(key.as_bytes()), ErrorKind::Invalid);
+            track_assert!(is_field_value(val.as_bytes()), ErrorKind::Invalid);
             self.headers.add_raw_header(&key, val.as_bytes());
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
         }
+        Ok(())
     }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
@@ -46,8 +49,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
         let s = if v { "true" } else { "false" };
-        self.append(Cow::Borrowed(s));
-        Ok(())
+        track!(self.append(Cow::Borrowed(s)))
     }
     fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
         track!(self.serialize_i64(v as i64))
@@ -59,8 +61,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_i64(v as i64))
     }
     fn serialize_i64(self, v: i64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
         track!(self.serialize_u64(v as u64))
@@ -72,28 +73,24 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_u64(v as u64))
     }
     fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok> {
         track!(self.serialize_f64(v as f64))
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
         let v = unsafe { str::from_utf8_unchecked(v) };
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -232,3 +229,26 @@ impl<'a, 'b> ser::SerializeStructVariant for &'a mut HttpHeaderSerializer<'b> {
         Ok(())
     }
 }
+
+// RFC 7230, section 3.2.6 (`token`)
+fn is_field_name(name: &[u8]) -> bool {
+    for b in name {
+        match *b {
+            b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' => {}
+            b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' => {}
+            b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~' => {}
+            _ => return false,
+        }
+    }
+    !name.is_empty()
+}
+
+// RFC 7230, section 3.2 (`field-value`)
+fn is_field_value(value: &[u8]) -> bool {
+    for b in value {
+        if (*b < 0x20 && *b != b'\t') || *b == 0x7f {
+            return false;
+        }
+    }
+    true
+}
-- 
2.43.0


From 998d4f57a212d473f1f3e52410dfe5d830c370b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:20 +0000
Subject: [PATCH 07/16] fix: build the path of a request that has a query but
 no path part

---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..9cca66c 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From 98742ef20e68202b68517735c338f2b1fb47e7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:20 +0000
Subject: [PATCH 08/16] fix: report a request without its path variables as an
 error instead of panicking

---
 src/serializers/rpc_request.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 9cca66c..c25eb92 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -38,26 +38,26 @@ impl RpcRequestSerializer {
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
-        let mut request = self.take_request();
+        let mut request = track!(self.take_request())?;
         request.add_header(&ContentLength(body.len() as u64));
         Ok(request.finish())
     }
 
-    fn take_request(&mut self) -> RequestBuilder<TcpStream> {
+    fn take_request(&mut self) -> Result<RequestBuilder<TcpStream>> {
         if let Some(request) = self.request.take() {
-            request
+            Ok(request)
         } else {
-            assert!(self.connection.is_some());
+            track_assert!(self.connection.is_some(), ErrorKind::Invalid);
             if !self.is_path_initialized {
-                let mut serializer = track_try_unwrap!(UrlPathSerializer::new(
+                let mut serializer = track!(UrlPathSerializer::new(
                     &self.entry_point,
                     &mut self.temp_url,
-                ));
-                track_try_unwrap!(().serialize(&mut serializer));
+                ))?;
+                track!(().serialize(&mut serializer))?;
             }
             let relative_url = &self.temp_url[url::Position::BeforePath..];
             let connection = self.connection.take().unwrap();
-            connection.build_request(self.method, relative_url)
+            Ok(connection.build_request(self.method, relative_url))
         }
     }
 }
@@ -234,7 +234,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 Ok(())
             }
             "header" => {
-                let mut request = self.take_request();
+                let mut request = track!(self.take_request())?;
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
@@ -258,6 +258,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
     {
         match key {
             "header" => {
+                track_assert!(self.request.is_some(), ErrorKind::Invalid);
                 let request = self.request.as_mut().unwrap();
                 let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                 track!(value.serialize(&mut serializer))?;
-- 
2.43.0


From 8688918b76c8d785088bf412a6702d45da47d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:20 +0000
Subject: [PATCH 09/16] fix: keep the HTTP status in step with a replaced
 problem

---
 src/rfc7807.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..0a8a4ea 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -38,6 +38,7 @@ impl ProblemResponse {
 
     /// Sets the `Problem` instance of this response.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
-- 
2.43.0


From a9dcc56ae86f3a9343c69adb3495cd1aa27756f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:21 +0000
Subject: [PATCH 10/16] fix: let clients decode a problem response that is not
 inside a variant

---
 src/rfc7807.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 0a8a4ea..92ac2e1 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -1,6 +1,7 @@
 //! "Problem Details for HTTP APIs ([RFC 7807][RFC 7807])" related components.
 //!
 //! [RFC 7807]: https://tools.ietf.org/html/rfc7807
+use serde::{Deserialize, Deserializer};
 use serdeconv;
 use std::error;
 use std::fmt;
@@ -17,6 +18,8 @@ use RpcResponse;
 /// [RFC 7807]: https://tools.ietf.org/html/rfc7807
 #[derive(Debug, Serialize, Deserialize)]
 pub struct ProblemResponse {
+    #[serde(default)]
+    #[serde(deserialize_with = "deserialize_status")]
     status: Option<u16>,
     header: ProblemHeader,
     #[serde(skip)]
@@ -55,6 +58,13 @@ impl RpcResponse for ProblemResponse {
     }
 }
 
+fn deserialize_status<'de, D>(deserializer: D) -> Result<Option<u16>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    u16::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 struct ProblemHeader {
     #[serde(rename = "content-type")]
-- 
2.43.0


From 917159f77ae88ecbe82a914306fb271f40631688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:37 +0000
Subject: [PATCH 11/16] fix: answer 404 to a request target without path
 segments instead of panicking

---
 src/router.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..a8d0e3b 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -29,7 +29,9 @@ impl Router {
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
+        // The URL of a request such as "GET mailto:foo HTTP/1.1" has no path segments.
+        let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;
+        for segment in segments {
             if let Some(child) = trie.get_child(segment) {
                 trie = child;
             } else {
-- 
2.43.0


From bed85e52f4bf7f77e820fd7914687cd83980bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:38 +0000
Subject: [PATCH 12/16] fix: route to any matching entry point and answer 404
 when none matches the path

---
 src/router.rs | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index a8d0e3b..7f25ce6 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -2,6 +2,7 @@ use fibers::net::TcpStream;
 use futures::Future;
 use miasht::server::{Request, Response};
 use std::collections::HashMap;
+use std::str::Split;
 use std::sync::Arc;
 use url::Url;
 
@@ -28,18 +29,9 @@ impl Router {
         url: &Url,
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
-        let mut trie = self.trie.root();
         // The URL of a request such as "GET mailto:foo HTTP/1.1" has no path segments.
         let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;
-        for segment in segments {
-            if let Some(child) = trie.get_child(segment) {
-                trie = child;
-            } else {
-                return Err(HttpStatus::NotFound);
-            }
-        }
-        trie.get_value(request.method())
-            .ok_or(HttpStatus::MethodNotAllowed)
+        self.trie.root().find(segments, request.method())
     }
 }
 
@@ -120,11 +112,36 @@ impl TrieNode {
             leafs: HashMap::new(),
         }
     }
+    pub fn find<'a>(
+        &'a self,
+        mut segments: Split<char>,
+        method: HttpMethod,
+    ) -> ::std::result::Result<&'a HandleHttpRequest, HttpStatus> {
+        if let Some(segment) = segments.next() {
+            let mut status = HttpStatus::NotFound;
+            if let Some(child) = self.get_child(segment) {
+                match child.find(segments.clone(), method) {
+                    Ok(handler) => return Ok(handler),
+                    Err(e) => status = e,
+                }
+            }
+            if let Some(child) = self.children.get(&None) {
+                match child.find(segments, method) {
+                    Ok(handler) => return Ok(handler),
+                    Err(HttpStatus::NotFound) => {}
+                    Err(e) => status = e,
+                }
+            }
+            Err(status)
+        } else if self.leafs.is_empty() {
+            Err(HttpStatus::NotFound)
+        } else {
+            self.get_value(method).ok_or(HttpStatus::MethodNotAllowed)
+        }
+    }
     pub fn get_child<'a>(&'a self, segment: &str) -> Option<&'a Self> {
         let segment: &'static str = unsafe { &*(segment as *const _) as _ };
-        self.children
-            .get(&Some(segment))
-            .or_else(|| self.children.get(&None))
+        self.children.get(&Some(segment))
     }
     pub fn get_value(&self, method: HttpMethod) -> Option<&HandleHttpRequest> {
         self.leafs.get(&method)
-- 
2.43.0


From 41922c8b27b37e132468494a42c6683694bec39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:51 +0000
Subject: [PATCH 13/16] fix: report a response body cut short of its
 Content-Length as an error

---
 src/client.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 915676a..cb1c900 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,10 @@
+use std::io;
 use std::net::SocketAddr;
 use fibers::net::TcpStream;
 use futures::{self, Async, Future, Poll};
 use handy_async::future::Phase;
 use miasht;
-use miasht::builtin::io::IoExt;
+use miasht::builtin::io::{BodyReader, IoExt};
 use miasht::builtin::futures::FutureExt;
 use miasht::client::{Connection, Response};
 use serde::{Deserialize, Serialize};
@@ -108,7 +109,17 @@ where
                     } else {
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
-                            .map(|(res, body)| (res.into_inner(), body));
+                            .and_then(|(res, body)| {
+                                if let BodyReader::FixedLength(ref r) = res {
+                                    if r.limit() != 0 {
+                                        // The connection was closed in the middle of the body.
+                                        let kind = io::ErrorKind::UnexpectedEof;
+                                        let e = io::Error::new(kind, "Truncated response body");
+                                        return Err(track!(miasht::Error::from(e)));
+                                    }
+                                }
+                                Ok((res.into_inner(), body))
+                            });
                         Box::new(future)
                     };
                     Phase::D(future)
-- 
2.43.0


From b1f8fc23cdef66fd1995154a230b1036ee1213d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:52 +0000
Subject: [PATCH 14/16] fix: order pooled connections by their whole address

---
 src/pool.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 099882d..c0a50d9 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -36,8 +36,7 @@ impl PartialOrd for ConnectionId {
 }
 impl Ord for ConnectionId {
     fn cmp(&self, other: &Self) -> Ordering {
-        let other = (other.addr.ip(), other.addr.port(), other.seq_no);
-        (self.addr.ip(), self.addr.port(), self.seq_no).cmp(&other)
+        (self.addr, self.seq_no).cmp(&(other.addr, other.seq_no))
     }
 }
 
-- 
2.43.0


From f5370a2b3f8273f8704c0471f71b97cf1d63c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:14 +0000
Subject: [PATCH 15/16] fix: do not panic when the suspension ends beyond the
 representable time

---
 src/pool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pool.rs b/src/pool.rs
index c0a50d9..e3ef6e3 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -169,7 +169,9 @@ impl RpcClientPool {
                 self.release_connection(addr, connection);
             }
             Command::AddToBlacklist { addr } => {
-                let suspended_until = SystemTime::now() + self.suspended_duration;
+                let now = SystemTime::now();
+                let suspended_until = now.checked_add(self.suspended_duration)
+                    .unwrap_or_else(|| now + Duration::from_secs(u64::from(u32::max_value())));
                 self.blacklist.insert(addr, suspended_until);
             }
         }
-- 
2.43.0


From 237342161691077d499295eb5aff781a4039209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:48 +0000
Subject: [PATCH 16/16] fix: let a receiver ignore a whole query or header part
 that is empty

---
 src/deserializers/http_header.rs | 4 +++-
 src/deserializers/url_query.rs   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 1b79b33..7e0227c 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,7 +299,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_str())?;
+        if self.in_map {
+            let _v = track!(self.next_str())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0

