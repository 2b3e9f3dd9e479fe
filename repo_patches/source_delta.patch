From a0b28149946ed2dcbe9fcb5949641267eaccd053 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 01/12] fix: a message owns exactly the file descriptors its
 header declares

decode_with_fds reported the highest used index instead of the declared
UNIX_FDS count, and let a body refer to descriptors beyond it, which belong
to the next messages in the receiver's queue.
---
 src/decode/decoder.rs                |  5 -----
 src/decode/message/message_struct.rs | 17 +++++++++++++----
 src/decode/value/basic_type.rs       |  2 --
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/decode/decoder.rs b/src/decode/decoder.rs
index 2f81228..6b0cf33 100644
--- a/src/decode/decoder.rs
+++ b/src/decode/decoder.rs
@@ -19,8 +19,6 @@ pub struct Decoder<'a> {
     pub(crate) offset: usize,
     #[cfg(target_family = "unix")]
     pub(crate) fds: &'a [RawFd],
-    #[cfg(target_family = "unix")]
-    pub(crate) offset_fds: Option<usize>,
     #[cfg(not(target_family = "unix"))]
     phantom: PhantomData<&'a usize>,
 }
@@ -48,8 +46,6 @@ impl<'a> Decoder<'a> {
             offset: 0,
             #[cfg(target_family = "unix")]
             fds: &[],
-            #[cfg(target_family = "unix")]
-            offset_fds: None,
             #[cfg(not(target_family = "unix"))]
             phantom: PhantomData,
         }
@@ -62,7 +58,6 @@ impl<'a> Decoder<'a> {
             buf,
             offset: 0,
             fds,
-            offset_fds: None,
         }
     }
 
diff --git a/src/decode/message/message_struct.rs b/src/decode/message/message_struct.rs
index 06e1d58..881bff8 100644
--- a/src/decode/message/message_struct.rs
+++ b/src/decode/message/message_struct.rs
@@ -37,6 +37,14 @@ impl<'a> Decoder<'a> {
     pub(crate) fn message(&mut self) -> DecodeResult<Message> {
         let (header, body) = self.message_header()?;
 
+        // The following FDs belong to the next messages.
+        #[cfg(target_family = "unix")]
+        {
+            let fds = self.fds;
+            let fds_len = header.get_unix_fds().unwrap_or(0) as usize;
+            self.fds = &fds[..fds_len.min(fds.len())];
+        }
+
         self.algin(8)?;
 
         let body = match body {
@@ -65,10 +73,11 @@ impl Message {
         let mut decoder = Decoder::new_with_fds(bytes, fds);
         let msg = decoder.message()?;
         let offset = decoder.offset;
-        let offset_fds = match decoder.offset_fds {
-            Some(offset_fds) => offset_fds + 1,
-            None => 0,
-        };
+        // All FDs of the message are consumed, even if the body does not refer to them.
+        let offset_fds = msg.get_unix_fds().unwrap_or(0) as usize;
+        if fds.len() < offset_fds {
+            return Err(DecodeError::NotEnoughFds(fds.len(), offset_fds - 1));
+        }
         Ok((msg, offset, offset_fds))
     }
 }
diff --git a/src/decode/value/basic_type.rs b/src/decode/value/basic_type.rs
index 18c583c..18ee761 100644
--- a/src/decode/value/basic_type.rs
+++ b/src/decode/value/basic_type.rs
@@ -2,7 +2,6 @@ use crate::decode::{DecodeError, DecodeResult, Decoder};
 use crate::value::{ObjectPath, Type, Value};
 use bytes::{Buf, Bytes};
 #[cfg(target_family = "unix")]
-use std::cmp::max;
 use std::convert::TryFrom;
 use std::mem::size_of;
 use std::str::from_utf8;
@@ -103,7 +102,6 @@ impl<'a> Decoder<'a> {
     pub(crate) fn unix_fd(&mut self, is_le: bool) -> DecodeResult<Value> {
         let i = self.u_32(is_le)? as usize;
         if let Some(fd) = self.fds.get(i) {
-            self.offset_fds = max(Some(i), self.offset_fds);
             Ok(Value::UnixFD(*fd))
         } else {
             Err(DecodeError::NotEnoughFds(self.fds.len(), i))
-- 
2.43.0


From 3e9dc5a4bde78eb664d45b3887406584eabbb958 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 02/12] fix: the root path namespace matches every path below
 it

---
 src/match_rule/matching.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/match_rule/matching.rs b/src/match_rule/matching.rs
index feb6aae..b8e3f8f 100644
--- a/src/match_rule/matching.rs
+++ b/src/match_rule/matching.rs
@@ -6,7 +6,8 @@ use crate::{
 
 fn match_namespace<const P: char>(namespace: &str, value: &str) -> bool {
     if let Some(value) = value.strip_prefix(namespace) {
-        value.starts_with(P) || value.is_empty()
+        // The root namespace ("/") ends with the separator itself.
+        value.starts_with(P) || value.is_empty() || namespace.ends_with(P)
     } else {
         false
     }
-- 
2.43.0


From db9c4205870a3f5507d63720b9beb1a7a053ef09 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 03/12] fix: do not encode a left-over body signature for a
 message without a body

---
 src/encode/message/header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 98fe489..8cbbad9 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -46,6 +46,8 @@ impl Encoder {
             fields.signature = Some(body_signature);
             body_length
         } else {
+            // Without a body a signature which is left over from another message is wrong.
+            fields.signature = None;
             0
         };
 
-- 
2.43.0


From b3b09936f3620cbcfd1e61514f21021992e9229a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 04/12] fix: do not append an empty element to an object path

---
 src/value/object_path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 7e19c4a..56abda2 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -164,7 +164,8 @@ impl ObjectPath {
     /// Append an element to the object path.
     ///
     /// Returns `true` if the new element could be appended, otherwise `false`.
-    /// An element cannot be appended if the element contain a character, which is not allowed.
+    /// An element cannot be appended if the element is empty or contain a character, which is not
+    /// allowed.
     ///
     /// # Example
     /// ```
@@ -179,6 +180,9 @@ impl ObjectPath {
     /// assert_eq!(&object_path, "/object/path");
     /// ```
     pub fn append(&mut self, element: &str) -> bool {
+        if element.is_empty() {
+            return false;
+        }
         for c in element.as_bytes() {
             if !c.is_ascii_alphanumeric() && *c != b'_' {
                 return false;
-- 
2.43.0


From dd84d77d47351042e196444599333f07a5971185 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 05/12] fix: refuse to encode the signature of an empty struct

---
 src/value/type_enum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index d7129b4..fb2a4c0 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -243,6 +243,10 @@ impl Type {
                 type_.try_to_string(type_string, array_depth + 1, struct_depth, dict_depth)?;
             }
             Type::Struct(signature) => {
+                if signature.is_empty() {
+                    // Decoding "()" fails in the same way.
+                    return Err(TypeError::InvalidChar(b')'));
+                }
                 type_string.push('(');
                 for type_ in signature {
                     type_.try_to_string(type_string, array_depth, struct_depth + 1, dict_depth)?;
-- 
2.43.0


From a50fa56c21127aa0db133d4bb96def07be8ba778 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 06/12] fix: refuse to encode messages above the maximum
 message length

---
 src/encode/error.rs                  | 3 +++
 src/encode/message/message_struct.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/encode/error.rs b/src/encode/error.rs
index ff8a0f6..a899777 100644
--- a/src/encode/error.rs
+++ b/src/encode/error.rs
@@ -1,3 +1,4 @@
+use crate::message::MAXIMUM_MESSAGE_LENGTH;
 use crate::value::{Type, TypeError, MAXIMUM_ARRAY_LENGTH};
 use thiserror::Error;
 
@@ -12,6 +13,8 @@ pub enum EncodeError {
     BodyLengthZero(Vec<Type>),
     #[error("The body signature is missing, but there body length 0 != {0}")]
     BodySignatureMissing(u32),
+    #[error("Message length is too big: {MAXIMUM_MESSAGE_LENGTH} < {0}")]
+    MessageTooBig(usize),
     #[error("Could not encode Signature: {0}")]
     SignatureError(#[from] TypeError),
 }
diff --git a/src/encode/message/message_struct.rs b/src/encode/message/message_struct.rs
index acc3be4..8128c67 100644
--- a/src/encode/message/message_struct.rs
+++ b/src/encode/message/message_struct.rs
@@ -1,5 +1,5 @@
 use crate::encode::{EncodeError, EncodeResult, Encoder};
-use crate::message::Message;
+use crate::message::{Message, MAXIMUM_MESSAGE_LENGTH};
 use crate::value::Type;
 use bytes::BytesMut;
 use cfg_if::cfg_if;
@@ -25,6 +25,9 @@ impl Encoder {
         }
 
         let body = encoder.buf;
+        if MAXIMUM_MESSAGE_LENGTH < body.len() {
+            return Err(EncodeError::MessageTooBig(body.len()));
+        }
         let body_length = body.len() as u32;
         if body_length == 0 {
             if body_signature.is_empty() {
@@ -43,6 +46,10 @@ impl Encoder {
 
         // Append the body.
         self.algin(8);
+        let message_length = self.buf.len() + body.len();
+        if MAXIMUM_MESSAGE_LENGTH < message_length {
+            return Err(EncodeError::MessageTooBig(message_length));
+        }
         self.buf.extend(body);
 
         Ok(())
-- 
2.43.0


From bf29dceef66ac216c6ad981bdab00ba7d47e9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 07/12] fix: do not declare file descriptors which are not sent

---
 src/encode/message/header.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/encode/message/header.rs b/src/encode/message/header.rs
index 8cbbad9..42ccc9b 100644
--- a/src/encode/message/header.rs
+++ b/src/encode/message/header.rs
@@ -36,10 +36,13 @@ impl Encoder {
         let mut fields = message_header.fields.clone();
         cfg_if! {
             if #[cfg(target_family = "unix")] {
+                // A count which is left over from another message is wrong.
                 let fds_len = self.fds.len();
-                if fds_len != 0 {
-                    fields.unix_fds = Some(fds_len as u32);
-                }
+                fields.unix_fds = if fds_len != 0 {
+                    Some(fds_len as u32)
+                } else {
+                    None
+                };
             }
         }
         let body_length = if let Some((body_length, body_signature)) = body {
-- 
2.43.0


From d0f7fc7983db5f2d8102c5314fb31de53d82be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 08/12] fix: a signature that ends early is not reported as too
 big

---
 src/value/type_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/type_enum.rs b/src/value/type_enum.rs
index fb2a4c0..caf2ff0 100644
--- a/src/value/type_enum.rs
+++ b/src/value/type_enum.rs
@@ -17,7 +17,7 @@ pub enum TypeError {
     StructDepth(u8),
     #[error("Dict depth is too big: {MAXIMUM_DICT_DEPTH} < {0}")]
     DictDepth(u8),
-    #[error("Signature is too big: {MAXIMUM_SIGNATURE_LENGTH} < {0}")]
+    #[error("Signature is too short: got {0} offset {1}")]
     TooShort(usize, usize),
     #[error("The closing curly bracket is missing for the dict at {0} got {1}")]
     ClosingCurlyBracket(usize, u8),
-- 
2.43.0


From 15847deaa78132b6893472fb0e7ef40167fc99ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 09/12] fix: name the limit of an argument index that is too
 big truthfully

---
 src/match_rule/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_rule/mod.rs b/src/match_rule/mod.rs
index ff330ba..0c6bac6 100644
--- a/src/match_rule/mod.rs
+++ b/src/match_rule/mod.rs
@@ -63,7 +63,7 @@ pub enum MatchRuleError {
     PathErrorNamespace(ObjectPathError),
     #[error("Could not decode destination: {0}")]
     DestinationError(#[from] UniqueConnectionNameError),
-    #[error("The index of the argument is too big: {0} < {MAXIMUM_ARG_INDEX}")]
+    #[error("The index of the argument is too big: {MAXIMUM_ARG_INDEX} <= {0}")]
     ArgIndexTooBig(usize),
     #[error("Could not decode arg path: {0}")]
     ArgPathError(ObjectPathError),
-- 
2.43.0


From 8c55d02a316b89ff505978dec4500879f55c3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 10/12] fix: an object path ending in '/' is not reported as
 ending in '.'

---
 src/value/object_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/object_path.rs b/src/value/object_path.rs
index 56abda2..9098fba 100644
--- a/src/value/object_path.rs
+++ b/src/value/object_path.rs
@@ -90,7 +90,7 @@ pub struct ObjectPath(String);
 pub enum ObjectPathError {
     #[error("ObjectPath must not begin with an alphanumeric or with a '_' or with a '-'")]
     BeginAlphanumericAndUnderscoreAndHyphen,
-    #[error("ObjectPath must not end with '.'")]
+    #[error("ObjectPath must not end with '/'")]
     EndSlash,
     #[error("ObjectPath must not be empty")]
     Empty,
-- 
2.43.0


From c54cea0fe09198e56a1278bd91e9c28267ddb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 11/12] fix: give the refusal of an ill-formed destination a
 text

---
 src/message/header/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/header/fields.rs b/src/message/header/fields.rs
index d1a6c9f..2b0afb8 100644
--- a/src/message/header/fields.rs
+++ b/src/message/header/fields.rs
@@ -62,7 +62,7 @@ pub enum FieldsError {
     ErrorError(#[from] ErrorError),
     #[error("Variant does not contain a Uint32: {0:?}")]
     ReplySerial(Value),
-    #[error("")]
+    #[error("String could not be converted to a Bus: {0}")]
     BusError(#[from] BusError),
     #[error("Variant does not contain a String: {0:?}")]
     Destination(Value),
-- 
2.43.0


From c28f038d8f0b4916c32d57980bb22722e1d34679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 12/12] fix: a repeated sender is not reported as a repeated
 destination

---
 src/message/header/fields.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message/header/fields.rs b/src/message/header/fields.rs
index 2b0afb8..25d94ee 100644
--- a/src/message/header/fields.rs
+++ b/src/message/header/fields.rs
@@ -87,7 +87,7 @@ pub enum FieldsError {
     MultipleReplySerial(Value),
     #[error("The destination is defined mutlple times: {0:?}")]
     MultipleDestination(Value),
-    #[error("The destination is defined mutlple times: {0:?}")]
+    #[error("The sender is defined mutlple times: {0:?}")]
     MultipleSender(Value),
     #[error("The signature is defined mutlple times: {0:?}")]
     MultipleSignature(Value),
-- 
2.43.0

