From c476094af562909f561c1e8211ab7b4bcd5b433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 01/22] fix: report ids and attachment counts beyond u64
 instead of panicking

---
 socket-io-protocol/src/socket/de.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6fe4642..2e12128 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -80,9 +80,17 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             _ => unreachable!(),
         }
     };
-    let attachments = captures.get(3).map(|x| x.as_str().parse::<u64>().unwrap());
+    // The pattern only bounds the form of the numbers, not their size.
+    let number = |group| {
+        captures
+            .get(group)
+            .map(|x| x.as_str().parse::<u64>())
+            .transpose()
+            .map_err(|_| Error::InvalidMessage(text.to_string()))
+    };
+    let attachments = number(3)?;
     let namespace = captures.get(5).map(|x| x.range());
-    let id = captures.get(6).map(|x| x.as_str().parse::<u64>().unwrap());
+    let id = number(6)?;
     let args = match captures.get(7) {
         Some(m) => {
             let mut args = parse_args(m.as_str())?;
-- 
2.43.0


From 7880a7ef9f633001719424aef026ed2612ba511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 02/22] fix: end the namespace of a packet at the first comma

---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 2e12128..da305c3 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/.+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 2509c5aba0422adc934dca44b8e20ad7868cb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 03/22] fix: accept line breaks inside the arguments of a
 packet

---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index da305c3..f51208a 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"(?s)^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From 5104dae3c90445ef3b492db1291f006bcd2e263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 04/22] fix: accept acks without arguments

---
 socket-io-protocol/src/socket/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index f51208a..59e19c6 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -204,7 +204,12 @@ fn deserialize_event(
     name: &'static str,
     attachments: Vec<OwnedSubslice<Vec<u8>>>,
 ) -> Result<Packet, Error> {
-    if (kind == Kind::Ack && parse.id.is_none()) || parse.args.is_empty() {
+    let missing = match kind {
+        // An ack may carry no arguments at all, but must say what it answers.
+        Kind::Ack => parse.id.is_none(),
+        _ => parse.args.is_empty(),
+    };
+    if missing {
         return Err(Error::MissingData(name, parse.message.to_string()));
     }
     if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
-- 
2.43.0


From f5ad7057b3a6395a61e6f0852d57713e6ac2ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 05/22] fix: reject text messages received before open

---
 socket-io-protocol/src/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket-io-protocol/src/engine.rs b/socket-io-protocol/src/engine.rs
index a15e705..86cc4cd 100644
--- a/socket-io-protocol/src/engine.rs
+++ b/socket-io-protocol/src/engine.rs
@@ -119,6 +119,9 @@ impl Decoder {
                 }
             }
             '4' => {
+                if self.state == State::Initial {
+                    return Err(Error::MessageBeforeOpen);
+                }
                 let len = text.len();
                 Ok(Packet::Message(Message::Text(OwnedSubslice::new(
                     text,
-- 
2.43.0


From 5495ab62a44a4a5357549ae6032f6e5168d8b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 06/22] fix: report arguments that do not fit a json Value
 instead of panicking

---
 socket-io-protocol/src/socket/args/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d816273..4c52d02 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -63,9 +63,10 @@ impl<'a> Args<'a> {
 
 impl<'a> Arg<'a> {
     pub fn to_json_value(&self) -> Result<Value, Error> {
-        // We can unwrap because if the json was going to fail to deserialize we would have failed
-        // to parse
-        let mut value = serde_json::from_str(self.arg).unwrap();
+        // The argument is known to be json, but not everything that is json fits into a `Value`,
+        // e.g. numbers out of range, lone surrogates or values nested too deeply.
+        let mut value = serde_json::from_str(self.arg)
+            .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))?;
         if !self.attachments.is_empty() {
             fill_placeholders_value(&mut value, &self.attachments)?;
         }
-- 
2.43.0


From 9db3586eb5e330edd17d85f4adab93847553e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 07/22] fix: print arguments that cannot be resolved as
 received instead of panicking

---
 socket-io-protocol/src/socket/args/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index 4c52d02..9d99669 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -160,7 +160,10 @@ impl<'a> fmt::Display for Args<'a> {
 
 impl<'a> fmt::Display for Arg<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.to_json_value().unwrap())
+        match self.to_json_value() {
+            Ok(value) => write!(f, "{}", value),
+            Err(_) => f.write_str(self.arg),
+        }
     }
 }
 
-- 
2.43.0


From b1efc037e2611f956ad9271892685292aad252a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 08/22] fix: keep the opening bracket when the first argument
 of an ack fails

---
 socket-io-protocol/src/socket/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 2977cf8..c7c5d93 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -97,6 +97,7 @@ impl PacketBuilder {
         T: Serialize + ?Sized,
     {
         let start_pos = self.buffer.len();
+        let start_first = self.first;
         let mut cursor = Cursor::new(&mut self.buffer);
         cursor.set_position(start_pos as u64);
         if self.first {
@@ -119,6 +120,7 @@ impl PacketBuilder {
         if result.is_err() {
             self.buffer
                 .resize_with(start_pos, || panic!("shrinking vector"));
+            self.first = start_first;
         }
         result
     }
-- 
2.43.0


From e8340c020f3d4b3f9bf9a2e7984c504701fa76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 09/22] fix: do not leak the attachment header into sequences
 that start with bytes

---
 socket-io-protocol/src/socket/args/serialize_attachments.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/serialize_attachments.rs b/socket-io-protocol/src/socket/args/serialize_attachments.rs
index 3a3bc94..c597e90 100644
--- a/socket-io-protocol/src/socket/args/serialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/serialize_attachments.rs
@@ -389,7 +389,8 @@ where
                 Err(_) => {
                     // The data isn't all u8's
                     let mut seq = s.take().unwrap().serialize_seq(*len)?;
-                    for b in data.iter() {
+                    // The first byte is the header of the attachment
+                    for b in data.iter().skip(1) {
                         seq.serialize_element(b)?;
                     }
                     seq.serialize_element(&Wrapper {
-- 
2.43.0


From be4fdb765ccf05d5e09a097354db6562566896fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 10/22] fix: clip subslices whose end overflows

---
 owned_subslice/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owned_subslice/src/lib.rs b/owned_subslice/src/lib.rs
index 82c6f52..26ef174 100644
--- a/owned_subslice/src/lib.rs
+++ b/owned_subslice/src/lib.rs
@@ -23,8 +23,8 @@ where
     }
 
     pub fn subslice(self, range: Range<usize>) -> Self {
-        let start = self.range.start + range.start;
-        let end = std::cmp::min(self.range.start + range.end, self.range.end);
+        let start = self.range.start.saturating_add(range.start);
+        let end = std::cmp::min(self.range.start.saturating_add(range.end), self.range.end);
         OwnedSubslice {
             data: self.data,
             range: Range { start, end },
-- 
2.43.0


From f08b5b87d8bc7198bae00383a9ef63ff00f98ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 11/22] fix: read the first key of a map like any other key
 when attachments are present

---
 .../socket/args/deserialize_attachments.rs    | 150 ++++++++++++++++--
 1 file changed, 139 insertions(+), 11 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c684fc7..989b38c 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,14 +1,14 @@
-use std::fmt;
+use std::{borrow::Cow, fmt, marker::PhantomData};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
-        value::{BorrowedStrDeserializer, SeqDeserializer},
-        DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
-        Visitor,
+        value::{CowStrDeserializer, SeqDeserializer},
+        DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, Unexpected,
+        VariantAccess, Visitor,
     },
-    Deserialize, Deserializer,
+    forward_to_deserialize_any, Deserialize, Deserializer,
 };
 use serde_json::{Deserializer as JsonDeserializer, Error as JsonError};
 
@@ -97,7 +97,19 @@ where
 {
     map: M,
     buffers: Buffers<'a>,
-    first_key: Option<Option<&'a str>>,
+    first_key: Option<Option<Cow<'a, str>>>,
+}
+
+/// The first key of a map, which had to be read to find out whether the map is a placeholder.
+/// `Cow` alone would never borrow.
+#[derive(Deserialize)]
+#[serde(transparent)]
+struct FirstKey<'a>(#[serde(borrow)] Cow<'a, str>);
+
+/// Deserializes a key that has been read already the way serde_json deserializes map keys.
+struct KeyDeserializer<'a, E> {
+    key: Cow<'a, str>,
+    error: PhantomData<E>,
 }
 
 macro_rules! deserialize_forward {
@@ -288,11 +300,11 @@ where
     where
         A: MapAccess<'de>,
     {
-        let key: Option<&'de str> = map.next_key()?;
-        if key == Some("_placeholder") {
+        let key: Option<Cow<'de, str>> = map.next_key()?.map(|FirstKey(key)| key);
+        if key.as_deref() == Some("_placeholder") {
             let _: bool = map.next_value()?;
-            let next_key: Option<&'de str> = map.next_key()?;
-            if next_key != Some("num") {
+            let next_key: Option<Cow<'de, str>> = map.next_key()?;
+            if next_key.as_deref() != Some("num") {
                 return Err(A::Error::custom("_placeholder key present without num key"));
             }
             let num: u64 = map.next_value()?;
@@ -424,7 +436,10 @@ where
     {
         if let Some(key) = self.first_key.take() {
             if let Some(key) = key {
-                let deserializer = BorrowedStrDeserializer::new(key);
+                let deserializer = KeyDeserializer {
+                    key,
+                    error: PhantomData,
+                };
                 seed.deserialize(deserializer).map(Some)
             } else {
                 Ok(None)
@@ -447,6 +462,119 @@ where
     }
 }
 
+macro_rules! deserialize_number_key {
+    ($($ty:ident,)*) => {
+        $(
+            paste!{
+                fn [<deserialize_ $ty>]<V>(self, visitor: V) -> Result<V::Value, E>
+                where
+                    V: Visitor<'de>
+                {
+                    let number = |c: char| c.is_ascii_digit();
+                    let json = match &self.key {
+                        Cow::Borrowed(key)
+                            if key.starts_with(|c| c == '-' || number(c)) && key.ends_with(number) =>
+                        {
+                            key
+                        }
+                        // Numbers never contain escapes
+                        _ => return Err(E::custom("invalid value: expected key to be a number in quotes")),
+                    };
+                    let mut d = JsonDeserializer::from_str(json);
+                    let value = d.[<deserialize_ $ty>](visitor).map_err(E::custom)?;
+                    d.end().map_err(E::custom)?;
+                    Ok(value)
+                }
+            }
+        )*
+    };
+}
+
+impl<'de, E> Deserializer<'de> for KeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_str(key),
+            Cow::Owned(key) => visitor.visit_string(key),
+        }
+    }
+
+    deserialize_number_key! {
+        i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, f32, f64,
+    }
+
+    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed("true") => visitor.visit_bool(true),
+            Cow::Borrowed("false") => visitor.visit_bool(false),
+            key => Err(E::invalid_type(Unexpected::Str(&key), &visitor)),
+        }
+    }
+
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_bytes(key.as_bytes()),
+            Cow::Owned(key) => visitor.visit_byte_buf(key.into_bytes()),
+        }
+    }
+
+    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_bytes(visitor)
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        // Keys cannot be null
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        CowStrDeserializer::new(self.key).deserialize_enum(name, variants, visitor)
+    }
+
+    forward_to_deserialize_any! {
+        char str string unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
 impl<'b, T> DeserializeSeed<'b> for BinarySeed<'b, T>
 where
     T: DeserializeSeed<'b>,
-- 
2.43.0


From d778b5e0be9a2f8cdc7312d74df8e6aeb68b8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 12/22] fix: resolve a placeholder that is the content of a
 tuple variant

---
 .../socket/args/deserialize_attachments.rs    | 39 +++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 989b38c..d775f66 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -91,6 +91,15 @@ where
     buffers: Buffers<'a>,
 }
 
+struct TupleSeed<'a, V>
+where
+    V: Visitor<'a>,
+{
+    len: usize,
+    visitor: V,
+    buffers: Buffers<'a>,
+}
+
 struct BinaryMapAccess<'a, M>
 where
     M: MapAccess<'a>,
@@ -395,14 +404,12 @@ where
     where
         T: Visitor<'de>,
     {
-        self.variant.tuple_variant(
+        // `tuple_variant` insists on an array, so it would never get to see a placeholder.
+        self.variant.newtype_variant_seed(TupleSeed {
             len,
-            BinaryVisitor {
-                visitor,
-                buffers: self.buffers,
-                access_type: AccessType::Seq,
-            },
-        )
+            visitor,
+            buffers: self.buffers,
+        })
     }
 
     fn struct_variant<T>(
@@ -593,6 +600,24 @@ where
     }
 }
 
+impl<'b, V> DeserializeSeed<'b> for TupleSeed<'b, V>
+where
+    V: Visitor<'b>,
+{
+    type Value = V::Value;
+
+    fn deserialize<D>(self, d: D) -> Result<V::Value, D::Error>
+    where
+        D: Deserializer<'b>,
+    {
+        let wrapper = BinaryDeserializer {
+            d,
+            buffers: self.buffers,
+        };
+        wrapper.deserialize_tuple(self.len, self.visitor)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 26a4c51b286703cfb14ad0d9df0ac13c7a87c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 13/22] fix: reject arguments that were only read in part when
 attachments are present

---
 socket-io-protocol/src/socket/args/deserialize_attachments.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index d775f66..641fb8f 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -33,7 +33,9 @@ where
 {
     let mut d = JsonDeserializer::from_str(arg);
     let deserializer = BinaryDeserializer { d: &mut d, buffers };
-    T::deserialize(deserializer)
+    let value = T::deserialize(deserializer)?;
+    d.end()?;
+    Ok(value)
 }
 
 enum AccessType {
-- 
2.43.0


From 32a90f5cbd9297e9030e88fde02881a304bf6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 14/22] fix: reject attachments that are longer than the array
 they are read into

---
 .../src/socket/args/deserialize_attachments.rs           | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index 641fb8f..be4d425 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -328,9 +328,12 @@ where
             })?;
             match self.access_type {
                 AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
-                AccessType::Seq | AccessType::Neither => self
-                    .visitor
-                    .visit_seq(SeqDeserializer::new(buffer.iter().copied())),
+                AccessType::Seq | AccessType::Neither => {
+                    let mut seq = SeqDeserializer::new(buffer.iter().copied());
+                    let value = self.visitor.visit_seq(&mut seq)?;
+                    seq.end()?;
+                    Ok(value)
+                }
             }
         } else {
             let map = BinaryMapAccess {
-- 
2.43.0


From bbd91cdef11514784ced98b7fed3ab74ff9152e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 15/22] hook: announce mutex acquisitions under cfg(sio_mc)

---
 socket-io-client/src/callbacks.rs  |  9 +++--
 socket-io-client/src/connection.rs |  9 +++--
 socket-io-client/src/lib.rs        | 14 ++++---
 socket-io-client/src/receiver.rs   |  9 +++--
 socket-io-client/src/sync.rs       | 60 ++++++++++++++++++++++++++++++
 5 files changed, 84 insertions(+), 17 deletions(-)
 create mode 100644 socket-io-client/src/sync.rs

diff --git a/socket-io-client/src/callbacks.rs b/socket-io-client/src/callbacks.rs
index cc1abd0..f92fe9f 100644
--- a/socket-io-client/src/callbacks.rs
+++ b/socket-io-client/src/callbacks.rs
@@ -1,7 +1,8 @@
-use std::{
-    collections::HashMap,
-    sync::{Arc, Mutex},
-};
+#[cfg(sio_mc)]
+use crate::sync::Mutex;
+#[cfg(not(sio_mc))]
+use std::sync::Mutex;
+use std::{collections::HashMap, sync::Arc};
 
 use socket_io_protocol::socket::Args;
 
diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 769c42b..43d3502 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -1,7 +1,8 @@
-use std::{
-    sync::{Arc, Mutex},
-    time::Duration,
-};
+#[cfg(sio_mc)]
+use crate::sync::Mutex;
+#[cfg(not(sio_mc))]
+use std::sync::Mutex;
+use std::{sync::Arc, time::Duration};
 
 use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
 use futures::{
diff --git a/socket-io-client/src/lib.rs b/socket-io-client/src/lib.rs
index 7dd2083..666b6dd 100644
--- a/socket-io-client/src/lib.rs
+++ b/socket-io-client/src/lib.rs
@@ -1,10 +1,9 @@
 #![recursion_limit = "1024"] // Needed for select
+#![allow(unexpected_cfgs)] // sio_mc is only set by model checkers
 
-use std::{
-    error::Error as StdError,
-    sync::{Arc, Mutex},
-    time::Duration,
-};
+#[cfg(not(sio_mc))]
+use std::sync::Mutex;
+use std::{error::Error as StdError, sync::Arc, time::Duration};
 
 use async_tungstenite::tungstenite::{Error as WsError, Message as WsMessage};
 use futures::{
@@ -20,12 +19,17 @@ mod connection;
 mod emit;
 pub mod protocol;
 mod receiver;
+#[cfg(sio_mc)]
+#[doc(hidden)]
+pub mod sync;
 
 use callbacks::Callbacks;
 pub use callbacks::{AckCallback, EventCallback};
 use connection::Connection;
 pub use emit::{AckArgsBuilder, AckBuilder, EventArgsBuilder, EventBuilder};
 use receiver::Receiver;
+#[cfg(sio_mc)]
+use sync::Mutex;
 
 pub struct Client {
     connection: Connection,
diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index e584da5..70e2898 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -1,7 +1,8 @@
-use std::{
-    borrow::Cow,
-    sync::{Arc, Mutex},
-};
+#[cfg(sio_mc)]
+use crate::sync::Mutex;
+#[cfg(not(sio_mc))]
+use std::sync::Mutex;
+use std::{borrow::Cow, sync::Arc};
 
 use async_tungstenite::tungstenite::Message as WsMessage;
 use futures::channel::{mpsc, oneshot};
diff --git a/socket-io-client/src/sync.rs b/socket-io-client/src/sync.rs
new file mode 100644
index 0000000..4ec961d
--- /dev/null
+++ b/socket-io-client/src/sync.rs
@@ -0,0 +1,60 @@
+//! The mutex used under `cfg(sio_mc)`: a std mutex that announces every acquisition, so that a
+//! model checker can schedule around it.
+use std::sync::{
+    self,
+    atomic::{AtomicUsize, Ordering},
+    LockResult, MutexGuard, TryLockResult,
+};
+
+static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// Sets the function called before every acquisition.
+pub fn set_lock_hook(hook: fn()) {
+    HOOK.store(hook as usize, Ordering::SeqCst);
+}
+
+fn announce() {
+    let hook = HOOK.load(Ordering::SeqCst);
+    if hook != 0 {
+        // Only `set_lock_hook` stores anything here
+        let hook = unsafe { std::mem::transmute::<usize, fn()>(hook) };
+        hook();
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T: ?Sized> {
+    inner: sync::Mutex<T>,
+}
+
+impl<T> Mutex<T> {
+    pub const fn new(data: T) -> Self {
+        Mutex {
+            inner: sync::Mutex::new(data),
+        }
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+impl<T: ?Sized> Mutex<T> {
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        announce();
+        self.inner.lock()
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        announce();
+        self.inner.try_lock()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+}
-- 
2.43.0


From f09a7890a076907d4ba6df1eba0fae5ea257220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 16/22] fix: report a connection that ends before open instead
 of panicking

---
 socket-io-client/src/connection.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 43d3502..d4091b7 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -4,7 +4,11 @@ use crate::sync::Mutex;
 use std::sync::Mutex;
 use std::{sync::Arc, time::Duration};
 
-use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
+use async_tungstenite::{
+    async_tls,
+    tungstenite::{Error as WsError, Message as WsMessage},
+    WebSocketStream,
+};
 use futures::{
     channel::{mpsc, oneshot},
     future::{FutureExt, RemoteHandle},
@@ -71,7 +75,14 @@ impl Connection {
         .await?;
 
         let open = select! {
-            open = open_rx.fuse() => Ok(open.unwrap()),
+            open = open_rx.fuse() => match open {
+                Ok(open) => Ok(open),
+                // The connection ended before the Open message, the task knows why
+                Err(_) => match handle.await {
+                    Ok(()) => return Err(WsError::ConnectionClosed.into()),
+                    Err(e) => return Err(e),
+                },
+            },
             _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),
         }?;
         log::trace!("Received open: {:?}", open);
-- 
2.43.0


From 0e066827a3f1775f93a583d9e7af34f2e6ea7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 17/22] fix: send what was handed over before closing

---
 socket-io-client/src/connection.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index d4091b7..c218838 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -174,6 +174,17 @@ where
             }
         }
         drop(next);
+        // Send what was handed over before closing
+        send_rx.close();
+        while let Some(msgs) = send_rx.next().await {
+            for msg in msgs.into_iter() {
+                log::trace!("Sending websocket packet: {:?}", msg);
+                match sink.send(msg).await {
+                    Ok(()) => (),
+                    Err(e) => return Err(e.into()),
+                }
+            }
+        }
         let mut ws_stream = sink.reunite(stream).expect("Reunite should succeed");
         log::debug!("Sending close message");
         let _ = ws_stream.close(None).await;
-- 
2.43.0


From fb667fdfdfd42aee64b248e88a316f03967ae237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:00 +0000
Subject: [PATCH 18/22] fix: do not fail a session the server closes while
 answers are queued

---
 socket-io-client/src/connection.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index c218838..24e7900 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -136,6 +136,7 @@ where
     let task = async move {
         let mut next = stream.next().fuse();
         let mut closed = close.fuse();
+        let mut peer_closed = false; // Nothing can be sent anymore
         loop {
             select! {
                 result = next => {
@@ -151,7 +152,10 @@ where
                     };
                     next = stream.next().fuse();
                     match msg {
-                        Ok(msg) => receiver.process_websocket_packet(msg)?,
+                        Ok(msg) => {
+                            peer_closed |= msg.is_close();
+                            receiver.process_websocket_packet(msg)?
+                        }
                         Err(e) => return Err(e.into()),
                     }
                 }
@@ -160,6 +164,10 @@ where
                         Some(msg) => msg,
                         None => panic!("Sending stream closed unexpectedly"),
                     };
+                    if peer_closed {
+                        log::debug!("Dropping packet, the peer closed the connection");
+                        continue;
+                    }
                     for msg in msgs.into_iter() {
                         log::trace!("Sending websocket packet: {:?}", msg);
                         match sink.send(msg).await {
@@ -177,6 +185,9 @@ where
         // Send what was handed over before closing
         send_rx.close();
         while let Some(msgs) = send_rx.next().await {
+            if peer_closed {
+                continue;
+            }
             for msg in msgs.into_iter() {
                 log::trace!("Sending websocket packet: {:?}", msg);
                 match sink.send(msg).await {
-- 
2.43.0


From 9ea3545a0f8be750c2eab47c6f9c0fdb26b4d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 19/22] fix: release the handler registry before calling a
 handler

---
 socket-io-client/src/receiver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index 70e2898..5452fa4 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -143,17 +143,19 @@ impl Receiver {
                 let event: Cow<'_, str> = event.deserialize()?;
                 let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                 // TODO: Use id to create ack callback
-                if let Some(mut cb) = self.callbacks.lock().unwrap().get_event(namespace, &*event) {
+                // The lock must not be held during the call, the callback may use the client
+                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
+                if let Some(mut cb) = cb {
                     cb.call(&args, ack);
                 }
             }
             Data::Ack { id, args } => {
-                if let Some(cb) = self
+                let cb = self
                     .callbacks
                     .lock()
                     .unwrap()
-                    .get_and_clear_ack(namespace, id)
-                {
+                    .get_and_clear_ack(namespace, id);
+                if let Some(cb) = cb {
                     cb.call(&args);
                 } else {
                     return Err(Error::UnexpectedAck(packet.clone()));
-- 
2.43.0


From b3f41e45787204cda3aa7651ed600e9fa7aec95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:36 +0000
Subject: [PATCH 20/22] fix: pass IPv6 addresses to the connector without
 brackets

---
 socket-io-client/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/socket-io-client/src/lib.rs b/socket-io-client/src/lib.rs
index 666b6dd..736edcd 100644
--- a/socket-io-client/src/lib.rs
+++ b/socket-io-client/src/lib.rs
@@ -119,12 +119,16 @@ impl Client {
         let url = url.as_ref();
         let url = parse_url(url).map_err(|e| Error::UrlError(url.to_string(), e))?;
 
-        let connection = connect(
-            url.host_str().unwrap().into(),
-            url.port_or_known_default().unwrap(),
-        )
-        .await
-        .map_err(|e| Error::ConnectionError(Box::new(e)))?;
+        // In the URL, IPv6 addresses are in brackets, which are not part of the address
+        let host = match url.host().unwrap() {
+            url::Host::Domain(domain) => domain.to_string(),
+            url::Host::Ipv4(addr) => addr.to_string(),
+            url::Host::Ipv6(addr) => addr.to_string(),
+        };
+
+        let connection = connect(host, url.port_or_known_default().unwrap())
+            .await
+            .map_err(|e| Error::ConnectionError(Box::new(e)))?;
 
         Client::new(url, connection, spawn).await
     }
-- 
2.43.0


From 2f5f9dc71b332176b45faa8fbac75ff829d7f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 21/22] fix: hand strings over as bytes when bytes are asked
 for

With attachments, a string argument read by a type that asks for bytes was passed to visit_str, so a
type that accepts nothing but bytes failed to read it. Without attachments serde_json passes it to
visit_bytes.
---
 .../socket/args/deserialize_attachments.rs    | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index be4d425..bd341dd 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -39,6 +39,7 @@ where
 }
 
 enum AccessType {
+    Str,
     Bytes,
     Seq,
     Neither,
@@ -199,8 +200,8 @@ where
     }
 
     deserialize_forward_any! {
-        str(AccessType::Bytes),
-        string(AccessType::Bytes),
+        str(AccessType::Str),
+        string(AccessType::Str),
         bytes(AccessType::Bytes),
         byte_buf(AccessType::Bytes),
         seq(AccessType::Seq),
@@ -253,9 +254,6 @@ where
         f32(v: f32),
         f64(v: f64),
         char(v: char),
-        str(v: &str),
-        borrowed_str(v: &'de str),
-        string(v: String),
         bytes(v: &[u8]),
         borrowed_bytes(v: &'de [u8]),
         byte_buf(v: Vec<u8>),
@@ -263,6 +261,37 @@ where
         unit(),
     }
 
+    // serde_json hands a string over as bytes if that is what has been asked for.
+    fn visit_str<E>(self, v: &str) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        match self.access_type {
+            AccessType::Bytes => self.visitor.visit_bytes(v.as_bytes()),
+            _ => self.visitor.visit_str(v),
+        }
+    }
+
+    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        match self.access_type {
+            AccessType::Bytes => self.visitor.visit_borrowed_bytes(v.as_bytes()),
+            _ => self.visitor.visit_borrowed_str(v),
+        }
+    }
+
+    fn visit_string<E>(self, v: String) -> Result<V::Value, E>
+    where
+        E: DeError,
+    {
+        match self.access_type {
+            AccessType::Bytes => self.visitor.visit_byte_buf(v.into_bytes()),
+            _ => self.visitor.visit_string(v),
+        }
+    }
+
     fn visit_some<D>(self, d: D) -> Result<V::Value, D::Error>
     where
         D: Deserializer<'de>,
@@ -327,7 +356,7 @@ where
                 ))
             })?;
             match self.access_type {
-                AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
+                AccessType::Str | AccessType::Bytes => self.visitor.visit_borrowed_bytes(&*buffer),
                 AccessType::Seq | AccessType::Neither => {
                     let mut seq = SeqDeserializer::new(buffer.iter().copied());
                     let value = self.visitor.visit_seq(&mut seq)?;
-- 
2.43.0


From 94726da4d7efb8f06099a2b769f1440f1781ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 22/22] hook: announce acquired locks as well

---
 socket-io-client/src/sync.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/socket-io-client/src/sync.rs b/socket-io-client/src/sync.rs
index 4ec961d..c86d9d6 100644
--- a/socket-io-client/src/sync.rs
+++ b/socket-io-client/src/sync.rs
@@ -1,5 +1,5 @@
-//! The mutex used under `cfg(sio_mc)`: a std mutex that announces every acquisition, so that a
-//! model checker can schedule around it.
+//! The mutex used under `cfg(sio_mc)`: a std mutex that announces every acquisition, before and
+//! after, so that a model checker can schedule around it and while it is held.
 use std::sync::{
     self,
     atomic::{AtomicUsize, Ordering},
@@ -8,7 +8,7 @@ use std::sync::{
 
 static HOOK: AtomicUsize = AtomicUsize::new(0);
 
-/// Sets the function called before every acquisition.
+/// Sets the function called before and after every acquisition.
 pub fn set_lock_hook(hook: fn()) {
     HOOK.store(hook as usize, Ordering::SeqCst);
 }
@@ -42,12 +42,16 @@ impl<T> Mutex<T> {
 impl<T: ?Sized> Mutex<T> {
     pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
         announce();
-        self.inner.lock()
+        let guard = self.inner.lock();
+        announce();
+        guard
     }
 
     pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
         announce();
-        self.inner.try_lock()
+        let guard = self.inner.try_lock();
+        announce();
+        guard
     }
 
     pub fn get_mut(&mut self) -> LockResult<&mut T> {
-- 
2.43.0

