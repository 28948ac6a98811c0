From 16102b344b51686c6dfb86368acc621c2121ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 01/36] fix: reject map fields whose wire type is not
 length-delimited

The map arm of Value::merge_field never looked at the wire type, so a map
field written as a varint, fixed or group record was read as a length-delimited
entry from whatever bytes followed.
---
 prost-reflect/src/dynamic/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/message.rs b/prost-reflect/src/dynamic/message.rs
index 239c4c5..6c9897b 100644
--- a/prost-reflect/src/dynamic/message.rs
+++ b/prost-reflect/src/dynamic/message.rs
@@ -354,6 +354,8 @@ impl Value {
                 let key_desc = map_entry.get_field(MAP_ENTRY_KEY_NUMBER).unwrap();
                 let value_desc = map_entry.get_field(MAP_ENTRY_VALUE_NUMBER).unwrap();
 
+                prost::encoding::check_wire_type(WireType::LengthDelimited, wire_type)?;
+
                 let mut key = MapKey::default_value(&key_desc.kind());
                 let mut value = Value::default_value_for_field(&value_desc);
                 prost::encoding::merge_loop(
-- 
2.43.0


From c2eed851609396531696baafc17f4418d39e5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 02/36] fix: serialize non-finite FloatValue and DoubleValue as
 JSON strings

The wrappers passed NaN and infinities to the serializer as plain numbers,
which serde_json writes as null, so the value was lost.
---
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 28 ++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 423ef26..d806859 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -9,12 +9,12 @@ use crate::{
             case::snake_case_to_camel_case, check_duration, check_timestamp, is_well_known_type,
             SerializeOptions,
         },
-        DynamicMessage,
+        DynamicMessage, Value,
     },
-    ReflectMessage,
+    Kind, ReflectMessage,
 };
 
-use super::{serialize_dynamic_message_fields, SerializeWrapper};
+use super::{serialize_dynamic_message_fields, SerializeWrapper, ValueAndKind};
 
 #[allow(type_alias_bounds)]
 type WellKnownTypeSerializer<S: Serializer> =
@@ -124,27 +124,41 @@ where
 fn serialize_float<S>(
     msg: &DynamicMessage,
     serializer: S,
-    _options: &SerializeOptions,
+    options: &SerializeOptions,
 ) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
 {
     let raw: f32 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f32(raw)
+    SerializeWrapper {
+        value: &ValueAndKind {
+            value: &Value::F32(raw),
+            kind: &Kind::Float,
+        },
+        options,
+    }
+    .serialize(serializer)
 }
 
 fn serialize_double<S>(
     msg: &DynamicMessage,
     serializer: S,
-    _options: &SerializeOptions,
+    options: &SerializeOptions,
 ) -> Result<S::Ok, S::Error>
 where
     S: Serializer,
 {
     let raw: f64 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f64(raw)
+    SerializeWrapper {
+        value: &ValueAndKind {
+            value: &Value::F64(raw),
+            kind: &Kind::Double,
+        },
+        options,
+    }
+    .serialize(serializer)
 }
 
 fn serialize_int32<S>(
-- 
2.43.0


From 5c926365129ea08586b75c9a710f5b30376c3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 03/36] fix: accept the largest finite float values in JSON

f32::MAX prints as 3.4028235e38, which is larger than f32::MAX as an f64, so
the printed form was rejected as out of range.
---
 prost-reflect/src/dynamic/serde/de/kind.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 4fc2fb5..6d6f470 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -213,10 +213,13 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        if v < (f32::MIN as f64) || v > (f32::MAX as f64) {
+        // Compare after rounding, since the shortest decimal form of `f32::MAX` is slightly
+        // larger than `f32::MAX` when read as an `f64`.
+        let rounded = v as f32;
+        if rounded.is_infinite() && v.is_finite() {
             Err(Error::custom("float value out of range"))
         } else {
-            Ok(v as f32)
+            Ok(rounded)
         }
     }
 
-- 
2.43.0


From 8314d4d2a032389af1caa5ba6a3365e0f07e75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 04/36] fix: treat null as absent for repeated Value and
 NullValue fields

A null for a repeated google.protobuf.Value or NullValue field stored a single
value in the list field, which later panics when the field is encoded.
---
 prost-reflect/src/dynamic/serde/de/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 3c16423..7264a86 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -170,6 +170,7 @@ where
         E: Error,
     {
         match self.0.kind() {
+            _ if self.0.is_list() => Ok(None),
             Kind::Message(message_desc) if message_desc.full_name() == "google.protobuf.Value" => {
                 make_message(
                     &message_desc,
-- 
2.43.0


From cdaa3e3c9ac8f4fd88241a19bbccda0e7cfb718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 05/36] fix: reject 2^63 and 2^64 written as floats for 64-bit
 integers in JSON

i64::MAX and u64::MAX round up when converted to f64, so the comparison let
the first value past the range through and saturated it.
---
 prost-reflect/src/dynamic/serde/de/kind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 6d6f470..279cfe7 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -402,7 +402,7 @@ impl Visitor<'_> for Int64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (i64::MIN as f64) || v > (i64::MAX as f64) {
+        if v < (i64::MIN as f64) || v >= (i64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
@@ -449,7 +449,7 @@ impl Visitor<'_> for Uint64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (u64::MIN as f64) || v > (u64::MAX as f64) {
+        if v < (u64::MIN as f64) || v >= (u64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
-- 
2.43.0


From b95d3c5100299fcbac332f071217689169218d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 06/36] fix: reject field mask paths that do not survive the
 JSON form

A trailing underscore was dropped, and empty paths and paths with a comma were
read back as a different set of paths.
---
 prost-reflect/src/dynamic/serde/case.rs    | 4 ++++
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/case.rs b/prost-reflect/src/dynamic/serde/case.rs
index 03bb7f0..c97147b 100644
--- a/prost-reflect/src/dynamic/serde/case.rs
+++ b/prost-reflect/src/dynamic/serde/case.rs
@@ -22,6 +22,10 @@ pub(crate) fn snake_case_to_camel_case(dst: &mut String, src: &str) -> Result<()
         }
     }
 
+    if ucase_next {
+        return Err(());
+    }
+
     Ok(())
 }
 
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index d806859..cc3ca01 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -272,6 +272,10 @@ where
 
     let mut result = String::new();
     for path in raw.paths {
+        if path.is_empty() || path.contains(',') {
+            return Err(Error::custom("invalid path in field mask"));
+        }
+
         if !result.is_empty() {
             result.push(',');
         }
-- 
2.43.0


From e63b7553e3b0e3bbe4f23e0bbbed0a53e8a3d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 07/36] fix: reject timestamps and durations with invalid nanos
 in JSON

Timestamps with negative or too large nanos, and durations whose seconds and
nanos have opposite signs, were printed as a different value.
---
 prost-reflect/src/dynamic/serde/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 8139977..5a54667 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -261,6 +261,7 @@ const MAX_DURATION_NANOS: u32 = 999_999_999;
 
 const MIN_TIMESTAMP_SECONDS: i64 = -62135596800;
 const MAX_TIMESTAMP_SECONDS: i64 = 253402300799;
+const MAX_TIMESTAMP_NANOS: i32 = 999_999_999;
 
 fn is_well_known_type(full_name: &str) -> bool {
     matches!(
@@ -288,6 +289,8 @@ fn is_well_known_type(full_name: &str) -> bool {
 fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str> {
     if duration.seconds.unsigned_abs() > MAX_DURATION_SECONDS
         || duration.nanos.unsigned_abs() > MAX_DURATION_NANOS
+        || (duration.seconds > 0 && duration.nanos < 0)
+        || (duration.seconds < 0 && duration.nanos > 0)
     {
         Err("duration out of range")
     } else {
@@ -296,7 +299,10 @@ fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str>
 }
 
 fn check_timestamp(timestamp: &prost_types::Timestamp) -> Result<(), &'static str> {
-    if timestamp.seconds < MIN_TIMESTAMP_SECONDS || MAX_TIMESTAMP_SECONDS < timestamp.seconds {
+    if timestamp.seconds < MIN_TIMESTAMP_SECONDS
+        || MAX_TIMESTAMP_SECONDS < timestamp.seconds
+        || !(0..=MAX_TIMESTAMP_NANOS).contains(&timestamp.nanos)
+    {
         Err("timestamp out of range")
     } else {
         Ok(())
-- 
2.43.0


From a958817b05f15be6ed1ceccc0cbe4680c2437c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 08/36] fix: reject quoted floats that overflow in JSON

A quoted number too large for the field was read as infinity.
---
 prost-reflect/src/dynamic/serde/de/kind.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 279cfe7..ed16fb7 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -184,10 +184,11 @@ impl Visitor<'_> for DoubleVisitor {
         E: Error,
     {
         match f64::from_str(v) {
-            Ok(value) => Ok(value),
-            Err(_) if v == "Infinity" => Ok(f64::INFINITY),
-            Err(_) if v == "-Infinity" => Ok(f64::NEG_INFINITY),
-            Err(_) if v == "NaN" => Ok(f64::NAN),
+            Ok(value) if value.is_finite() => Ok(value),
+            _ if v == "Infinity" => Ok(f64::INFINITY),
+            _ if v == "-Infinity" => Ok(f64::NEG_INFINITY),
+            _ if v == "NaN" => Ok(f64::NAN),
+            Ok(_) => Err(Error::custom("float value out of range")),
             Err(err) => Err(Error::custom(err)),
         }
     }
@@ -244,10 +245,11 @@ impl Visitor<'_> for FloatVisitor {
         E: Error,
     {
         match f32::from_str(v) {
-            Ok(value) => Ok(value),
-            Err(_) if v == "Infinity" => Ok(f32::INFINITY),
-            Err(_) if v == "-Infinity" => Ok(f32::NEG_INFINITY),
-            Err(_) if v == "NaN" => Ok(f32::NAN),
+            Ok(value) if value.is_finite() => Ok(value),
+            _ if v == "Infinity" => Ok(f32::INFINITY),
+            _ if v == "-Infinity" => Ok(f32::NEG_INFINITY),
+            _ if v == "NaN" => Ok(f32::NAN),
+            Ok(_) => Err(Error::custom("float value out of range")),
             Err(err) => Err(Error::custom(err)),
         }
     }
-- 
2.43.0


From dfdb987f5ad9d3d809e62b6ddd8993cce42b8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 09/36] fix: skip unknown members of google.protobuf.Empty when
 allowed

An unknown member was an error even with deny_unknown_fields(false).
---
 prost-reflect/src/dynamic/serde/de/mod.rs |  2 +-
 prost-reflect/src/dynamic/serde/de/wkt.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 7264a86..83ede0c 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -69,7 +69,7 @@ where
             .deserialize_any(wkt::GoogleProtobufValueVisitor)
             .and_then(|value| make_message(desc, value)),
         "google.protobuf.Empty" => deserializer
-            .deserialize_map(wkt::GoogleProtobufEmptyVisitor)
+            .deserialize_map(wkt::GoogleProtobufEmptyVisitor(options))
             .and_then(|empty| make_message(desc, empty)),
         _ => deserializer.deserialize_map(kind::MessageVisitor(desc, options)),
     }
diff --git a/prost-reflect/src/dynamic/serde/de/wkt.rs b/prost-reflect/src/dynamic/serde/de/wkt.rs
index 03217a7..9344bfc 100644
--- a/prost-reflect/src/dynamic/serde/de/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/de/wkt.rs
@@ -33,7 +33,7 @@ pub struct GoogleProtobufFieldMaskVisitor;
 pub struct GoogleProtobufListVisitor;
 pub struct GoogleProtobufStructVisitor;
 pub struct GoogleProtobufValueVisitor;
-pub struct GoogleProtobufEmptyVisitor;
+pub struct GoogleProtobufEmptyVisitor<'a>(pub &'a DeserializeOptions);
 
 impl<'de> Visitor<'de> for GoogleProtobufAnyVisitor<'_> {
     type Value = prost_types::Any;
@@ -347,15 +347,17 @@ impl<'de> Visitor<'de> for GoogleProtobufValueVisitor {
     }
 }
 
-impl<'de> Visitor<'de> for GoogleProtobufEmptyVisitor {
+impl<'de> Visitor<'de> for GoogleProtobufEmptyVisitor<'_> {
     type Value = ();
 
     fn visit_map<A>(self, mut map: A) -> Result<Self::Value, A::Error>
     where
         A: MapAccess<'de>,
     {
-        if map.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
-            return Err(Error::custom("unexpected value in map"));
+        while map.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
+            if self.0.deny_unknown_fields {
+                return Err(Error::custom("unexpected value in map"));
+            }
         }
 
         Ok(())
-- 
2.43.0


From 9c79d911fab2c003a8dd976a4561645fbe2fe716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 10/36] fix: accept none as null for Value and NullValue

Data formats that keep null as an absent option call visit_none, so the value
the serializer produced for null could not be read back.
---
 prost-reflect/src/dynamic/serde/de/wkt.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/de/wkt.rs b/prost-reflect/src/dynamic/serde/de/wkt.rs
index 9344bfc..e54143f 100644
--- a/prost-reflect/src/dynamic/serde/de/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/de/wkt.rs
@@ -125,6 +125,14 @@ impl Visitor<'_> for GoogleProtobufNullVisitor<'_> {
         }
     }
 
+    #[inline]
+    fn visit_none<E>(self) -> Result<Self::Value, E>
+    where
+        E: Error,
+    {
+        self.visit_unit()
+    }
+
     #[inline]
     fn visit_unit<E>(self) -> Result<Self::Value, E>
     where
@@ -314,6 +322,14 @@ impl<'de> Visitor<'de> for GoogleProtobufValueVisitor {
         })
     }
 
+    #[inline]
+    fn visit_none<E>(self) -> Result<Self::Value, E>
+    where
+        E: Error,
+    {
+        self.visit_unit()
+    }
+
     #[inline]
     fn visit_unit<E>(self) -> Result<Self::Value, E>
     where
-- 
2.43.0


From 46d2fbfc879777e6295032bb131451262c792ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 11/36] fix: round text format float literals to the nearest
 32-bit float

---
 .../src/dynamic/text_format/parse/mod.rs      | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index c15153e..f2f83eb 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -1,7 +1,7 @@
 mod error;
 mod lex;
 
-use std::{borrow::Cow, convert::TryFrom, iter::once};
+use std::{borrow::Cow, convert::TryFrom, fmt::Debug, iter::once, ops::Neg, str::FromStr};
 
 use logos::{Lexer, Logos, Span};
 use prost::Message;
@@ -273,11 +273,11 @@ impl<'a> Parser<'a> {
     fn parse_value(&mut self, kind: &Kind) -> Result<(Value, Span), ParseErrorKind> {
         match kind {
             Kind::Float => {
-                let (value, span) = self.parse_float()?;
-                Ok((Value::F32(value as f32), span))
+                let (value, span) = self.parse_float::<f32>()?;
+                Ok((Value::F32(value), span))
             }
             Kind::Double => {
-                let (value, span) = self.parse_float()?;
+                let (value, span) = self.parse_float::<f64>()?;
                 Ok((Value::F64(value), span))
             }
             Kind::Int32 | Kind::Sint32 | Kind::Sfixed32 => {
@@ -323,7 +323,11 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn parse_float(&mut self) -> Result<(f64, Span), ParseErrorKind> {
+    fn parse_float<T>(&mut self) -> Result<(T, Span), ParseErrorKind>
+    where
+        T: FromStr + From<f32> + Neg<Output = T>,
+        T::Err: Debug,
+    {
         let (negative, start) = match self.peek()? {
             Some((Token::Minus, _)) => (true, self.bump()),
             Some((_, span)) => (false, span),
@@ -331,17 +335,25 @@ impl<'a> Parser<'a> {
         };
 
         let (value, end) = match self.peek()? {
-            Some((Token::FloatLiteral(value), _)) => (value, self.bump()),
+            Some((Token::FloatLiteral(_), span)) => {
+                // Parse the literal as the target type, as rounding to `f64` and then to `f32`
+                // does not always give the closest value.
+                let literal = self.lexer.source()[span].trim_end_matches(['f', 'F']);
+                (
+                    literal.parse::<T>().expect("failed to parse float"),
+                    self.bump(),
+                )
+            }
             Some((Token::IntLiteral(Int { value, radix: 10 }), _)) => {
                 (value.parse().unwrap(), self.bump())
             }
             Some((Token::Ident(value), _))
                 if value.eq_ignore_ascii_case("inf") || value.eq_ignore_ascii_case("infinity") =>
             {
-                (f64::INFINITY, self.bump())
+                (f32::INFINITY.into(), self.bump())
             }
             Some((Token::Ident(value), _)) if value.eq_ignore_ascii_case("nan") => {
-                (f64::NAN, self.bump())
+                (f32::NAN.into(), self.bump())
             }
             _ => self.unexpected_token("a number")?,
         };
-- 
2.43.0


From 5eecd3c171c734e151cc2bdb2bd8a8e952004e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 12/36] fix: round JSON floats to the nearest 32-bit float

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index ed16fb7..82db7a5 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -214,9 +214,14 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
+        // The decimal number has already been rounded once, and rounding the `f64` again may not
+        // give the `f32` closest to it, so round its shortest decimal form instead.
+        let rounded = match format!("{v:e}").parse::<f32>() {
+            Ok(rounded) => rounded,
+            Err(_) => v as f32,
+        };
         // Compare after rounding, since the shortest decimal form of `f32::MAX` is slightly
         // larger than `f32::MAX` when read as an `f64`.
-        let rounded = v as f32;
         if rounded.is_infinite() && v.is_finite() {
             Err(Error::custom("float value out of range"))
         } else {
-- 
2.43.0


From c2e4d39197042413715430626cd6e5aeeb29e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 13/36] fix: limit the nesting depth when parsing the text
 format

---
 prost-reflect/src/dynamic/text_format/parse/error.rs |  7 +++++++
 prost-reflect/src/dynamic/text_format/parse/mod.rs   | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/error.rs b/prost-reflect/src/dynamic/text_format/parse/error.rs
index dfc909c..99f7b9a 100644
--- a/prost-reflect/src/dynamic/text_format/parse/error.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/error.rs
@@ -111,6 +111,10 @@ pub(crate) enum ParseErrorKind {
         #[cfg_attr(feature = "miette", label("used here"))]
         span: Span,
     },
+    RecursionLimitReached {
+        #[cfg_attr(feature = "miette", label("found here"))]
+        span: Span,
+    },
     InvalidMapKey,
 }
 
@@ -178,6 +182,9 @@ impl Display for ParseErrorKind {
                 f,
                 "the field type must be 'google.protobuf.Any' to use Any expansion syntax"
             ),
+            ParseErrorKind::RecursionLimitReached { .. } => {
+                write!(f, "message is too deeply nested")
+            }
             ParseErrorKind::InvalidMapKey => write!(f, "invalid value type for map key"),
         }
     }
diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index f2f83eb..7d97e20 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -21,8 +21,12 @@ use crate::{
 pub(in crate::dynamic::text_format) struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ParseErrorKind>>,
+    depth: u32,
 }
 
+/// The maximum depth of nested messages, the same limit that applies to the binary format.
+const RECURSION_LIMIT: u32 = 100;
+
 enum FieldName {
     Ident(String),
     Extension(String),
@@ -34,6 +38,7 @@ impl<'a> Parser<'a> {
         Parser {
             lexer: Token::lexer(input),
             peek: None,
+            depth: 0,
         }
     }
 
@@ -54,11 +59,17 @@ impl<'a> Parser<'a> {
             _ => self.unexpected_token("'{' or '<'")?,
         };
 
+        if self.depth == RECURSION_LIMIT {
+            return Err(ParseErrorKind::RecursionLimitReached { span: start });
+        }
+        self.depth += 1;
+
         loop {
             match self.peek()? {
                 Some((Token::Ident(_) | Token::LeftBracket, _)) => self.parse_field(message)?,
                 Some((tok, _)) if tok == terminator => {
                     let end = self.bump();
+                    self.depth -= 1;
                     return Ok(join_span(start, end));
                 }
                 _ => self.unexpected_token(format!("'{terminator}' or a field name"))?,
-- 
2.43.0


From 753e27117953ee62066173245851003079120e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 14/36] fix: reject an expanded Any in the text format when its
 fields are already set

---
 prost-reflect/src/dynamic/text_format/parse/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 7d97e20..748cd89 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -125,6 +125,15 @@ impl<'a> Parser<'a> {
                 let mut value = DynamicMessage::new(value_message);
                 self.parse_message_value(&mut value)?;
 
+                if message.desc.full_name() == "google.protobuf.Any"
+                    && (message.has_field_by_number(1) || message.has_field_by_number(2))
+                {
+                    return Err(ParseErrorKind::FieldAlreadySet {
+                        field_name: format!("[{domain}/{message_name}]"),
+                        span,
+                    });
+                }
+
                 let type_url = format!("{domain}/{message_name}");
                 let value = value.encode_to_vec();
 
-- 
2.43.0


From e88b43064637dd9cbfa03376d187be9abc2f3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 15/36] fix: do not expand an Any whose type URL cannot be
 parsed from the text format

---
 prost-reflect/src/dynamic/text_format/format.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 0f168f9..e7ddff7 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -304,6 +304,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
 
+    // The expanded form can only be parsed again if the domain is a sequence of identifiers.
+    let domain = &any.type_url[..any.type_url.len() - message_name.len() - 1];
+    if !domain.split('.').all(is_ident) {
+        return None;
+    }
+
     let desc = message
         .desc
         .parent_pool()
@@ -312,6 +318,12 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     Some((any.type_url, body))
 }
 
+fn is_ident(s: &str) -> bool {
+    !s.starts_with(|ch: char| ch.is_ascii_digit())
+        && !s.is_empty()
+        && s.chars().all(|ch| ch.is_ascii_alphanumeric() || ch == '_')
+}
+
 #[cfg(test)]
 #[cfg(feature = "text-format")]
 mod tests {
-- 
2.43.0


From 402dac8773269ce90c267701c0b3580b8ad13c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 16/36] fix: limit the depth of encoded messages expanded when
 printing the text format

---
 prost-reflect/src/dynamic/text_format/format.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index e7ddff7..2eaaa9e 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -16,8 +16,13 @@ pub(in crate::dynamic) struct Writer<'a, W> {
     options: FormatOptions,
     f: &'a mut W,
     indent_level: u32,
+    expand_depth: u32,
 }
 
+/// The maximum depth to which encoded messages (in `Any` messages and unknown fields) are expanded.
+/// Each of them is decoded with a new recursion limit, so their nesting is otherwise unlimited.
+const EXPAND_LIMIT: u32 = 50;
+
 impl<'a, W> Writer<'a, W>
 where
     W: Write,
@@ -27,16 +32,19 @@ where
             options,
             f,
             indent_level: 0,
+            expand_depth: 0,
         }
     }
 
     pub fn fmt_message(&mut self, message: &DynamicMessage) -> fmt::Result {
-        if self.options.expand_any {
+        if self.options.expand_any && self.expand_depth < EXPAND_LIMIT {
             if let Some((type_url, body)) = as_any(message) {
                 self.f.write_char('[')?;
                 self.f.write_str(&type_url)?;
                 self.f.write_str("]")?;
+                self.expand_depth += 1;
                 self.fmt_field_value(&Value::Message(body), None)?;
+                self.expand_depth -= 1;
                 return Ok(());
             }
         }
@@ -203,10 +211,13 @@ where
                 write!(self.f, "0x{:016x}", u64::from_le_bytes(*bytes))
             }
             UnknownFieldValue::LengthDelimited(bytes) => {
-                if !bytes.is_empty() {
+                if !bytes.is_empty() && self.expand_depth < EXPAND_LIMIT {
                     if let Ok(set) = UnknownFieldSet::decode(bytes.clone()) {
                         self.fmt_padding()?;
-                        return self.fmt_unknown_field_set(&set);
+                        self.expand_depth += 1;
+                        self.fmt_unknown_field_set(&set)?;
+                        self.expand_depth -= 1;
+                        return Ok(());
                     }
                 }
 
-- 
2.43.0


From c6f28cea6ae796fdcf9e281ee7a4c4eba2d4a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 17/36] fix: accept a list of messages without a colon in the
 text format

---
 .../src/dynamic/text_format/parse/mod.rs       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 748cd89..54f1132 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -80,11 +80,12 @@ impl<'a> Parser<'a> {
     fn parse_field(&mut self, message: &mut DynamicMessage) -> Result<(), ParseErrorKind> {
         let (name, span) = self.parse_field_name()?;
 
-        match self.peek()? {
+        let has_colon = match self.peek()? {
             Some((Token::Colon, _)) => {
                 self.bump();
+                true
             }
-            Some((Token::LeftBrace | Token::LeftAngleBracket, _)) => (),
+            Some((Token::LeftBrace | Token::LeftAngleBracket | Token::LeftBracket, _)) => false,
             _ => self.unexpected_token("':' or a message value")?,
         };
 
@@ -98,7 +99,7 @@ impl<'a> Parser<'a> {
                     }
                 })?;
 
-                self.parse_field_value(message, &field)?;
+                self.parse_field_value(message, &field, has_colon)?;
             }
             FieldName::Extension(extension_name) => {
                 let extension = message
@@ -110,7 +111,7 @@ impl<'a> Parser<'a> {
                         span,
                     })?;
 
-                self.parse_field_value(message, &extension)?;
+                self.parse_field_value(message, &extension, has_colon)?;
             }
             FieldName::Any(domain, message_name) => {
                 let value_message = match message
@@ -191,7 +192,16 @@ impl<'a> Parser<'a> {
         &mut self,
         message: &mut DynamicMessage,
         field: &impl FieldDescriptorLike,
+        has_colon: bool,
     ) -> Result<(), ParseErrorKind> {
+        // Only a list of messages may follow the field name without a colon
+        if !has_colon
+            && matches!(self.peek()?, Some((Token::LeftBracket, _)))
+            && field.kind().as_message().is_none()
+        {
+            self.unexpected_token("':'")?;
+        }
+
         if field.is_list() {
             let (value, _) = self.parse_repeated_value(&field.kind())?;
             let result = message.fields.get_mut(field).as_list_mut().unwrap();
-- 
2.43.0


From 4148e462139e6fe99b9d92a22af89a3f3660613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 18/36] fix: reject integers with a leading zero that are not
 octal in the text format

---
 prost-reflect/src/dynamic/text_format/parse/lex.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/dynamic/text_format/parse/lex.rs b/prost-reflect/src/dynamic/text_format/parse/lex.rs
index 91d2b45..280fcb1 100644
--- a/prost-reflect/src/dynamic/text_format/parse/lex.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/lex.rs
@@ -113,10 +113,13 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
         return Err(());
     }
 
-    Ok(Int {
-        value: &lex.source()[span],
-        radix,
-    })
+    let value = &lex.source()[span];
+    if radix == 10 && value.len() > 1 && value.starts_with('0') {
+        // Octal literals may not contain the digits 8 and 9
+        return Err(());
+    }
+
+    Ok(Int { value, radix })
 }
 
 fn float<'a>(lex: &mut Lexer<'a, Token<'a>>) -> f64 {
-- 
2.43.0


From 5d4120a4cb722bf6b09ea180f6d04804d19e4484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 19/36] fix: forget extensions of existing messages when adding
 files fails

---
 prost-reflect/src/descriptor/build/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ea94ca0..ae26778 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -95,7 +95,9 @@ impl DescriptorPoolOffsets {
         });
         pool.file_names.retain(|_, &mut file| file < self.file);
         for message in &mut pool.messages {
-            message.extensions.retain(|&message| message < self.message);
+            message
+                .extensions
+                .retain(|&extension| extension < self.extension);
         }
     }
 }
-- 
2.43.0


From 09ade7db35ff8074d334ea0b71388e8817c5cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 20/36] fix: follow chains of public imports

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 5a80342..7f888b6 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -421,7 +421,7 @@ impl ResolveVisitor<'_> {
         for (i, dependency) in file.raw.dependency.iter().enumerate() {
             if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
                 if file.raw.public_dependency.contains(&(i as i32))
-                    && !dependencies.insert(dependency_index)
+                    && dependencies.insert(dependency_index)
                 {
                     self.resolve_public_dependencies(dependencies, dependency_index);
                 }
-- 
2.43.0


From 62a902ec6f2d44204fb32252647b45cbff8a6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 21/36] fix: report an unknown syntax instead of panicking

---
 prost-reflect/src/descriptor/build/names.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 2332a36..dfe56d9 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -51,21 +51,11 @@ impl Visitor for NameVisitor<'_> {
     fn visit_file(&mut self, path: &[i32], index: FileIndex, file: &FileDescriptorProto) {
         debug_assert_eq!(to_index(self.pool.files.len()), index);
 
+        // The file must always be added, since it is needed to visit its definitions and report errors.
         let syntax = match file.syntax.as_deref() {
-            None | Some("proto2") => Syntax::Proto2,
-            Some("proto3") => Syntax::Proto3,
-            Some(syntax) => {
-                self.errors.push(DescriptorErrorKind::UnknownSyntax {
-                    syntax: syntax.to_owned(),
-                    found: Label::new(
-                        &self.pool.files,
-                        "found here",
-                        index,
-                        join_path(path, &[tag::file::SYNTAX]),
-                    ),
-                });
-                return;
-            }
+            None | Some("proto2") => Some(Syntax::Proto2),
+            Some("proto3") => Some(Syntax::Proto3),
+            Some(_) => None,
         };
 
         if self
@@ -79,13 +69,25 @@ impl Visitor for NameVisitor<'_> {
             });
         }
         self.pool.files.push(FileDescriptorInner {
-            syntax,
+            syntax: syntax.unwrap_or(Syntax::Proto2),
             raw: file.clone(),
             prost: Default::default(), // the prost descriptor is initialized from the internal descriptor once resolution is complete, to avoid needing to duplicate all modifications
             dependencies: Vec::with_capacity(file.dependency.len()),
             transitive_dependencies: HashSet::default(),
         });
 
+        if syntax.is_none() {
+            self.errors.push(DescriptorErrorKind::UnknownSyntax {
+                syntax: file.syntax().to_owned(),
+                found: Label::new(
+                    &self.pool.files,
+                    "found here",
+                    index,
+                    join_path(path, &[tag::file::SYNTAX]),
+                ),
+            });
+        }
+
         if !file.package().is_empty() {
             for (i, _) in file.package().match_indices('.') {
                 self.add_name(
-- 
2.43.0


From e00cfe1d80beefa69191f52811ffc782b6d8ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 22/36] fix: keep the default packing of fields with other
 options

---
 prost-reflect/src/descriptor/build/resolve.rs | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 7f888b6..767121e 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -5,7 +5,9 @@ use prost::bytes::Bytes;
 use crate::{
     descriptor::{
         build::{
-            join_path, resolve_name, to_json_name,
+            join_path,
+            options::option_to_bool,
+            resolve_name, to_json_name,
             visit::{visit, Visitor},
             DescriptorPoolOffsets, ResolveNameFilter,
         },
@@ -120,10 +122,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (field
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && packed_option(field).unwrap_or(syntax == Syntax::Proto3);
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -391,10 +390,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (extension
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && packed_option(extension).unwrap_or(syntax == Syntax::Proto3);
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
@@ -766,6 +762,20 @@ impl ResolveVisitor<'_> {
     }
 }
 
+/// The value of the `packed` option, which might not be interpreted yet.
+fn packed_option(field: &FieldDescriptorProto) -> Option<bool> {
+    let options = &field.options.as_ref()?.value;
+    options.packed.or_else(|| {
+        options
+            .uninterpreted_option
+            .iter()
+            .find(|o| {
+                o.name.len() == 1 && o.name[0].name_part == "packed" && !o.name[0].is_extension
+            })
+            .and_then(|o| option_to_bool(o).ok())
+    })
+}
+
 fn parse_simple_value(
     kind: KindIndex,
     value: &str,
-- 
2.43.0


From 8e0780727824acc73d236cb07f5f3e0b6836bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 23/36] fix: reject invalid escapes in default values of bytes
 fields

---
 prost-reflect/src/descriptor/build/resolve.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 767121e..ab1121c 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -865,10 +865,11 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     p += 1;
                 }
                 b'0'..=b'7' => {
-                    let mut octal = 0;
+                    let mut octal = 0u8;
                     for _ in 0..3 {
                         if p < len && src[p] >= b'0' && src[p] <= b'7' {
-                            octal = octal * 8 + (src[p] - b'0');
+                            octal = octal.checked_mul(8).ok_or("octal escape out of range")?
+                                + (src[p] - b'0');
                             p += 1;
                         } else {
                             break;
@@ -880,8 +881,9 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     if p + 3 > len {
                         return Err("hex escape must contain two characters");
                     }
-                    match u8::from_str_radix(&s[p + 1..p + 3], 16) {
-                        Ok(b) => dst.push(b),
+                    // The escape might end in the middle of a character.
+                    match s.get(p + 1..p + 3).map(|hex| u8::from_str_radix(hex, 16)) {
+                        Some(Ok(b)) => dst.push(b),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
-- 
2.43.0


From 6b38b8e5b096cb81a998b6f934c9b88548b0a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 24/36] fix: reject two extensions of a message with the same
 number

---
 prost-reflect/src/descriptor/build/resolve.rs | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index ab1121c..88b171e 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -365,6 +365,8 @@ impl Visitor for ResolveVisitor<'_> {
             tag::field::EXTENDEE,
         );
         if let Some(extendee) = extendee {
+            self.check_duplicate_extension_number(extendee, extension, file, path);
+
             self.pool.messages[extendee as usize].extensions.push(index);
 
             self.check_field_number(extendee, extension, file, path);
@@ -515,6 +517,37 @@ impl ResolveVisitor<'_> {
         }
     }
 
+    fn check_duplicate_extension_number(
+        &mut self,
+        message: MessageIndex,
+        extension: &FieldDescriptorProto,
+        file: FileIndex,
+        path: &[i32],
+    ) {
+        let existing = self.pool.messages[message as usize]
+            .extensions
+            .iter()
+            .map(|&index| &self.pool.extensions[index as usize])
+            .find(|existing| existing.number == extension.number() as u32);
+        if let Some(existing) = existing {
+            self.errors.push(DescriptorErrorKind::DuplicateFieldNumber {
+                number: existing.number,
+                first: Label::new(
+                    &self.pool.files,
+                    "first defined here",
+                    existing.id.file,
+                    join_path(&existing.id.path, &[tag::field::NUMBER]),
+                ),
+                second: Label::new(
+                    &self.pool.files,
+                    "defined again here",
+                    file,
+                    join_path(path, &[tag::field::NUMBER]),
+                ),
+            });
+        }
+    }
+
     fn check_enum_number(
         &mut self,
         enum_: EnumIndex,
-- 
2.43.0


From 72f1f3eeffa71c77c2911e7144f22ece65cf5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 25/36] fix: reject definitions with missing or invalid names

---
 prost-reflect/src/descriptor/build/names.rs | 41 +++++++++++++++++++--
 prost-reflect/src/descriptor/error.rs       | 15 ++++++++
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index dfe56d9..d52abb6 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -89,6 +89,9 @@ impl Visitor for NameVisitor<'_> {
         }
 
         if !file.package().is_empty() {
+            for part in file.package().split('.') {
+                self.check_name(index, part, path, &[tag::file::PACKAGE]);
+            }
             for (i, _) in file.package().match_indices('.') {
                 self.add_name(
                     index,
@@ -117,6 +120,7 @@ impl Visitor for NameVisitor<'_> {
         index: MessageIndex,
         message: &DescriptorProto,
     ) {
+        self.check_name(file, message.name(), path, &[tag::message::NAME]);
         self.add_name(
             file,
             full_name,
@@ -149,8 +153,9 @@ impl Visitor for NameVisitor<'_> {
         file: FileIndex,
         message: MessageIndex,
         _: FieldIndex,
-        _: &FieldDescriptorProto,
+        field: &FieldDescriptorProto,
     ) {
+        self.check_name(file, field.name(), path, &[tag::field::NAME]);
         self.add_name(
             file,
             full_name,
@@ -169,6 +174,7 @@ impl Visitor for NameVisitor<'_> {
         index: OneofIndex,
         oneof: &OneofDescriptorProto,
     ) {
+        self.check_name(file, oneof.name(), path, &[tag::oneof::NAME]);
         self.add_name(
             file,
             full_name,
@@ -195,8 +201,9 @@ impl Visitor for NameVisitor<'_> {
         full_name: &str,
         file: FileIndex,
         index: ServiceIndex,
-        _: &ServiceDescriptorProto,
+        service: &ServiceDescriptorProto,
     ) {
+        self.check_name(file, service.name(), path, &[tag::service::NAME]);
         self.add_name(
             file,
             full_name,
@@ -213,8 +220,9 @@ impl Visitor for NameVisitor<'_> {
         file: FileIndex,
         service: ServiceIndex,
         _: MethodIndex,
-        _: &MethodDescriptorProto,
+        method: &MethodDescriptorProto,
     ) {
+        self.check_name(file, method.name(), path, &[tag::method::NAME]);
         self.add_name(
             file,
             full_name,
@@ -233,6 +241,7 @@ impl Visitor for NameVisitor<'_> {
         index: EnumIndex,
         enum_: &EnumDescriptorProto,
     ) {
+        self.check_name(file, enum_.name(), path, &[tag::enum_::NAME]);
         self.add_name(
             file,
             full_name,
@@ -289,6 +298,7 @@ impl Visitor for NameVisitor<'_> {
         index: EnumValueIndex,
         value: &EnumValueDescriptorProto,
     ) {
+        self.check_name(file, value.name(), path, &[tag::enum_value::NAME]);
         self.add_name(
             file,
             full_name,
@@ -316,8 +326,9 @@ impl Visitor for NameVisitor<'_> {
         file: FileIndex,
         _: Option<MessageIndex>,
         index: ExtensionIndex,
-        _: &FieldDescriptorProto,
+        extension: &FieldDescriptorProto,
     ) {
+        self.check_name(file, extension.name(), path, &[tag::field::NAME]);
         self.add_name(
             file,
             full_name,
@@ -329,6 +340,28 @@ impl Visitor for NameVisitor<'_> {
 }
 
 impl NameVisitor<'_> {
+    fn check_name(&mut self, file: FileIndex, name: &str, path1: &[i32], path2: &[i32]) {
+        let found = || {
+            Label::new(
+                &self.pool.files,
+                "found here",
+                file,
+                join_path(path1, path2),
+            )
+        };
+        if name.is_empty() {
+            let label = found();
+            self.errors
+                .push(DescriptorErrorKind::MissingRequiredField { label });
+        } else if !name.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') {
+            let found = found();
+            self.errors.push(DescriptorErrorKind::InvalidName {
+                name: name.to_owned(),
+                found,
+            });
+        }
+    }
+
     fn add_name(
         &mut self,
         file: FileIndex,
diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index 540ce2d..4b01824 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -17,6 +17,10 @@ pub(super) enum DescriptorErrorKind {
     MissingRequiredField {
         label: Label,
     },
+    InvalidName {
+        name: String,
+        found: Label,
+    },
     UnknownSyntax {
         syntax: String,
         found: Label,
@@ -309,6 +313,7 @@ impl DescriptorErrorKind {
     fn label(&self) -> Option<&Label> {
         match self {
             DescriptorErrorKind::MissingRequiredField { label } => Some(label),
+            DescriptorErrorKind::InvalidName { found, .. } => Some(found),
             DescriptorErrorKind::UnknownSyntax { found, .. } => Some(found),
             DescriptorErrorKind::DuplicateFileName { .. } => None,
             DescriptorErrorKind::FileNotFound { found, .. } => Some(found),
@@ -346,6 +351,9 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::MissingRequiredField { label } => {
                 label.resolve_span(file, source);
             }
+            DescriptorErrorKind::InvalidName { found, .. } => {
+                found.resolve_span(file, source);
+            }
             DescriptorErrorKind::UnknownSyntax { found, .. } => {
                 found.resolve_span(file, source);
             }
@@ -450,6 +458,9 @@ impl fmt::Display for DescriptorErrorKind {
             DescriptorErrorKind::MissingRequiredField { label } => {
                 write!(f, "missing required field at {:?}", label.path)
             }
+            DescriptorErrorKind::InvalidName { name, .. } => {
+                write!(f, "'{name}' is not a valid identifier")
+            }
             DescriptorErrorKind::UnknownSyntax { syntax, .. } => {
                 write!(f, "unknown syntax '{syntax}'")
             }
@@ -617,6 +628,7 @@ impl miette::Diagnostic for DescriptorErrorKind {
 
         match self {
             DescriptorErrorKind::MissingRequiredField { .. } => None,
+            DescriptorErrorKind::InvalidName { .. } => None,
             DescriptorErrorKind::UnknownSyntax { .. } => {
                 Some(Box::new("valid values are 'proto2' and 'proto3'"))
             }
@@ -674,6 +686,9 @@ impl miette::Diagnostic for DescriptorErrorKind {
         let mut spans = Vec::new();
         match self {
             DescriptorErrorKind::MissingRequiredField { label } => spans.extend(label.to_span()),
+            DescriptorErrorKind::InvalidName { found, .. } => {
+                spans.extend(found.to_span());
+            }
             DescriptorErrorKind::UnknownSyntax { found: defined, .. } => {
                 spans.extend(defined.to_span());
             }
-- 
2.43.0


From d66a9c1cfd0c5ca6a571cc7789d6930242c8d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 26/36] fix: accept conflicts with default JSON names in proto2
 files

---
 prost-reflect/src/descriptor/build/resolve.rs | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 88b171e..0394f53 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{hash_map, HashSet};
 
 use prost::bytes::Bytes;
 
@@ -196,26 +196,36 @@ impl Visitor for ResolveVisitor<'_> {
                 ),
             });
         }
-        if let Some(existing) = message.field_json_names.insert(json_name, index) {
-            self.errors
-                .push(DescriptorErrorKind::DuplicateFieldJsonName {
-                    name: field.json_name().to_owned(),
-                    first: Label::new(
-                        &self.pool.files,
-                        "first defined here",
-                        file,
-                        join_path(
-                            &message.fields[existing as usize].id.path,
-                            &[tag::field::NAME],
-                        ),
-                    ),
-                    second: Label::new(
-                        &self.pool.files,
-                        "defined again here",
-                        file,
-                        join_path(path, &[tag::field::NAME]),
-                    ),
-                });
+        match message.field_json_names.entry(json_name) {
+            hash_map::Entry::Vacant(entry) => {
+                entry.insert(index);
+            }
+            hash_map::Entry::Occupied(mut entry) => {
+                let existing = &message.fields[*entry.get() as usize];
+                let existing_is_custom = *existing.json_name != *to_json_name(existing.id.name());
+                let is_custom = **entry.key() != *to_json_name(field.name());
+                // A conflict with a default JSON name is only a warning in proto2
+                if syntax != Syntax::Proto2 || (existing_is_custom && is_custom) {
+                    self.errors
+                        .push(DescriptorErrorKind::DuplicateFieldJsonName {
+                            name: entry.key().to_string(),
+                            first: Label::new(
+                                &self.pool.files,
+                                "first defined here",
+                                file,
+                                join_path(&existing.id.path, &[tag::field::NAME]),
+                            ),
+                            second: Label::new(
+                                &self.pool.files,
+                                "defined again here",
+                                file,
+                                join_path(path, &[tag::field::NAME]),
+                            ),
+                        });
+                } else if is_custom {
+                    entry.insert(index);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 839edbfae7d99fc931fa8fd2e5a5bf8a3e55929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 27/36] fix: ignore packages and definitions of files not
 imported when resolving relative names

---
 prost-reflect/src/descriptor/build/mod.rs     | 66 ++++++++++++++-----
 prost-reflect/src/descriptor/build/options.rs |  1 +
 prost-reflect/src/descriptor/build/resolve.rs |  1 +
 3 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ae26778..9ed69c5 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -316,6 +316,7 @@ fn to_json_name(name: &str) -> String {
 }
 
 fn resolve_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -325,11 +326,12 @@ fn resolve_name<'a, 'b>(
     match name.strip_prefix('.') {
         Some(full_name) => ResolveNameResult::new(dependencies, names, full_name, filter),
         None if scope.is_empty() => ResolveNameResult::new(dependencies, names, name, filter),
-        None => resolve_relative_name(dependencies, names, scope, name, filter),
+        None => resolve_relative_name(files, dependencies, names, scope, name, filter),
     }
 }
 
 fn resolve_relative_name<'a, 'b>(
+    files: &[FileDescriptorInner],
     dependencies: &HashSet<FileIndex>,
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
@@ -355,25 +357,30 @@ fn resolve_relative_name<'a, 'b>(
             }
         } else {
             // Looking up a name including a namespace e.g. `foo.Foo`. First determine the scope using the first component of the name.
-            match names.get(candidate.as_ref()) {
-                Some(def) if def.kind.is_parent() => {
-                    let candidate_full = match candidate_parent {
-                        "" => Cow::Borrowed(relative_name),
-                        _ => Cow::Owned(format!("{candidate_parent}.{relative_name}")),
-                    };
+            let Some(def) = names.get(candidate.as_ref()) else {
+                continue;
+            };
+            if !def.kind.is_parent() {
+                continue;
+            }
 
-                    let res =
-                        ResolveNameResult::new(dependencies, names, candidate_full.clone(), filter);
-                    if matches!(res, ResolveNameResult::NotFound) {
-                        return ResolveNameResult::Shadowed {
-                            name: Cow::Borrowed(relative_name),
-                            shadowed_name: candidate_full,
-                        };
-                    } else {
-                        return res;
-                    }
+            let candidate_full = match candidate_parent {
+                "" => Cow::Borrowed(relative_name),
+                _ => Cow::Owned(format!("{candidate_parent}.{relative_name}")),
+            };
+            let res = ResolveNameResult::new(dependencies, names, candidate_full.clone(), filter);
+
+            if is_visible(files, dependencies, &candidate, def) {
+                if matches!(res, ResolveNameResult::NotFound) {
+                    return ResolveNameResult::Shadowed {
+                        name: Cow::Borrowed(relative_name),
+                        shadowed_name: candidate_full,
+                    };
+                } else {
+                    return res;
                 }
-                _ => continue,
+            } else if matches!(err, ResolveNameResult::NotFound) {
+                err = res;
             }
         }
     }
@@ -381,6 +388,29 @@ fn resolve_relative_name<'a, 'b>(
     err.into_owned()
 }
 
+/// Whether a definition which may contain others can be named from a file with the given dependencies.
+fn is_visible(
+    files: &[FileDescriptorInner],
+    dependencies: &HashSet<FileIndex>,
+    name: &str,
+    def: &Definition,
+) -> bool {
+    match def.kind {
+        // A package may be defined in any number of files
+        DefinitionKind::Package => dependencies
+            .iter()
+            .any(|&file| is_in_package(&files[file as usize], name)),
+        _ => dependencies.contains(&def.file),
+    }
+}
+
+fn is_in_package(file: &FileDescriptorInner, package: &str) -> bool {
+    file.raw
+        .package()
+        .strip_prefix(package)
+        .is_some_and(|rest| rest.is_empty() || rest.starts_with('.'))
+}
+
 fn resolve_relative_candidate_parents(scope: &str) -> impl Iterator<Item = &str> {
     iter::once(scope)
         .chain(scope.rmatch_indices('.').map(move |(i, _)| &scope[..i]))
diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 6aa38c9..1084a49 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -521,6 +521,7 @@ impl OptionsVisitor<'_> {
         extendee: &MessageDescriptor,
     ) -> Result<ExtensionDescriptor, DescriptorErrorKind> {
         let (_, def) = resolve_name(
+            &self.pool.inner.files,
             &self.pool.inner.files[file as usize].transitive_dependencies,
             &self.pool.inner.names,
             scope,
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 0394f53..e42a410 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -762,6 +762,7 @@ impl ResolveVisitor<'_> {
         filter: ResolveNameFilter,
     ) -> Option<&Definition> {
         let (type_name, def) = match resolve_name(
+            &self.pool.files,
             &self.pool.files[file as usize].transitive_dependencies,
             &self.pool.names,
             scope,
-- 
2.43.0


From 6fa54b755e1ecc9c5c65faea254807482ab6a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 28/36] fix: reject map fields whose entry type is not a valid
 map entry

---
 prost-reflect/src/descriptor/build/mod.rs     |  3 +
 prost-reflect/src/descriptor/build/resolve.rs | 75 ++++++++++++++++++-
 prost-reflect/src/descriptor/mod.rs           | 23 ++++++
 3 files changed, 98 insertions(+), 3 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index 9ed69c5..8bd6619 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -142,6 +142,9 @@ impl DescriptorPool {
 
         debug_assert_eq!(Arc::strong_count(&self.inner), 1);
         let inner = Arc::get_mut(&mut self.inner).unwrap();
+
+        inner.check_map_entries(offsets)?;
+
         for file in &mut inner.files[offsets.file as usize..] {
             file.prost = file.raw.to_prost();
         }
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index e42a410..f83cb92 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -20,9 +20,9 @@ use crate::{
         },
         Definition, DefinitionKind, DescriptorPoolInner, EnumIndex, EnumValueIndex,
         ExtensionDescriptorInner, ExtensionIndex, FieldDescriptorInner, FieldIndex, FileIndex,
-        Identity, KindIndex, MessageIndex, MethodDescriptorInner, MethodIndex, OneofIndex,
-        ServiceDescriptorInner, ServiceIndex, RESERVED_MESSAGE_FIELD_NUMBERS,
-        VALID_MESSAGE_FIELD_NUMBERS,
+        Identity, KindIndex, MessageDescriptorInner, MessageIndex, MethodDescriptorInner,
+        MethodIndex, OneofIndex, ServiceDescriptorInner, ServiceIndex, MAP_ENTRY_KEY_NUMBER,
+        MAP_ENTRY_VALUE_NUMBER, RESERVED_MESSAGE_FIELD_NUMBERS, VALID_MESSAGE_FIELD_NUMBERS,
     },
     Cardinality, Syntax, Value,
 };
@@ -44,6 +44,75 @@ impl DescriptorPoolInner {
             Err(DescriptorError::new(visitor.errors))
         }
     }
+
+    /// Checks that map fields have a well-formed entry type. This must be done after resolving options,
+    /// as they determine which messages are map entries.
+    pub(super) fn check_map_entries(
+        &self,
+        offsets: DescriptorPoolOffsets,
+    ) -> Result<(), DescriptorError> {
+        let fields = self.messages[offsets.message as usize..]
+            .iter()
+            .flat_map(|message| &message.fields)
+            .map(|field| (&field.id, field.kind, field.cardinality));
+        let extensions = self.extensions[offsets.extension as usize..]
+            .iter()
+            .map(|extension| (&extension.id, extension.kind, extension.cardinality));
+
+        let mut errors = Vec::new();
+        for (id, kind, cardinality) in fields.chain(extensions) {
+            if let KindIndex::Message(entry) | KindIndex::Group(entry) = kind {
+                let entry = &self.messages[entry as usize];
+                if cardinality == Cardinality::Repeated
+                    && self.is_map_entry(entry)
+                    && !entry.has_map_entry_fields()
+                {
+                    errors.push(DescriptorErrorKind::InvalidType {
+                        name: entry.id.full_name().to_owned(),
+                        expected: "a valid map entry".to_owned(),
+                        found: Label::new(
+                            &self.files,
+                            "found here",
+                            id.file,
+                            join_path(&id.path, &[tag::field::TYPE_NAME]),
+                        ),
+                        defined: Label::new(
+                            &self.files,
+                            "defined here",
+                            entry.id.file,
+                            entry.id.path.clone(),
+                        ),
+                    });
+                }
+            }
+        }
+
+        if errors.is_empty() {
+            Ok(())
+        } else {
+            Err(DescriptorError::new(errors))
+        }
+    }
+
+    fn is_map_entry(&self, message: &MessageDescriptorInner) -> bool {
+        find_message_proto(&self.files[message.id.file as usize].raw, &message.id.path)
+            .options
+            .as_ref()
+            .is_some_and(|o| o.value.map_entry())
+    }
+}
+
+impl MessageDescriptorInner {
+    fn has_map_entry_fields(&self) -> bool {
+        let field = |number| {
+            self.field_numbers
+                .get(&number)
+                .map(|&index| &self.fields[index as usize])
+                .filter(|field| field.cardinality != Cardinality::Repeated)
+        };
+        field(MAP_ENTRY_KEY_NUMBER).is_some_and(|key| key.kind.is_map_key())
+            && field(MAP_ENTRY_VALUE_NUMBER).is_some()
+    }
 }
 
 struct ResolveVisitor<'a> {
diff --git a/prost-reflect/src/descriptor/mod.rs b/prost-reflect/src/descriptor/mod.rs
index d14c9b8..7c4a78e 100644
--- a/prost-reflect/src/descriptor/mod.rs
+++ b/prost-reflect/src/descriptor/mod.rs
@@ -364,6 +364,29 @@ impl KindIndex {
     fn is_message(&self) -> bool {
         matches!(self, KindIndex::Message(_) | KindIndex::Group(_))
     }
+
+    fn is_map_key(&self) -> bool {
+        match self {
+            KindIndex::Int32
+            | KindIndex::Int64
+            | KindIndex::Uint32
+            | KindIndex::Uint64
+            | KindIndex::Sint32
+            | KindIndex::Sint64
+            | KindIndex::Fixed32
+            | KindIndex::Fixed64
+            | KindIndex::Sfixed32
+            | KindIndex::Sfixed64
+            | KindIndex::Bool
+            | KindIndex::String => true,
+            KindIndex::Double
+            | KindIndex::Float
+            | KindIndex::Bytes
+            | KindIndex::Message(_)
+            | KindIndex::Group(_)
+            | KindIndex::Enum(_) => false,
+        }
+    }
 }
 
 impl fmt::Debug for KindIndex {
-- 
2.43.0


From 262cd405101655d1cdcb1f958906fffa505eb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 29/36] fix: report options that do not match the standard
 definition instead of panicking

---
 prost-reflect/src/descriptor/build/options.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 1084a49..99557c8 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -305,7 +305,10 @@ impl OptionsVisitor<'_> {
         scope: &str,
         file: FileIndex,
         path: &[i32],
-    ) -> Vec<u8> {
+    ) -> Vec<u8>
+    where
+        Options<T>: Message + Default,
+    {
         let desc = self.pool.get_message_by_name(desc_name).unwrap_or_else(|| {
             DescriptorPool::global()
                 .get_message_by_name(desc_name)
@@ -335,7 +338,15 @@ impl OptionsVisitor<'_> {
 
         message.clear_field_by_number(tag::UNINTERPRETED_OPTION as u32);
 
-        message.encode_to_vec()
+        let encoded = message.encode_to_vec();
+
+        // The definition of the options message in the pool may differ from the standard one.
+        if let Err(err) = Options::<T>::decode(encoded.as_slice()) {
+            self.errors
+                .push(DescriptorErrorKind::DecodeFileDescriptorSet { err });
+        }
+
+        encoded
     }
 
     #[allow(clippy::result_large_err)]
-- 
2.43.0


From 78f1b439c8cffb6b186d77036a06c76c63cc1503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 30/36] fix: ignore negative spans in source locations of
 descriptor errors

---
 prost-reflect/src/descriptor/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index 4b01824..c735943 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -808,7 +808,8 @@ impl Label {
                     Some([start_line, start_col, end_line, end_col])
                 }
                 _ => None,
-            });
+            })
+            .filter(|span| span.iter().all(|&n| n >= 0));
 
         Label {
             file: file.name().to_owned(),
-- 
2.43.0


From 14140e13a6a613b38fa1d89a7a8284142310c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 31/36] fix: reject options without a name

---
 prost-reflect/src/descriptor/build/options.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 99557c8..dcbdabb 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -358,6 +358,13 @@ impl OptionsVisitor<'_> {
         file: FileIndex,
         path: Box<[i32]>,
     ) -> Result<(), DescriptorErrorKind> {
+        if option.name.is_empty() {
+            return Err(DescriptorErrorKind::OptionNotFound {
+                name: String::new(),
+                found: Label::new(&self.pool.inner.files, "found here", file, path),
+            });
+        }
+
         let mut resolved_path = Vec::with_capacity(path.len() - 2 + option.name.len());
         resolved_path.extend_from_slice(&path[..path.len() - 2]);
 
-- 
2.43.0


From 025463e5ab326563669136eacb242ad3f0c84a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 32/36] fix: overflowing the stack when formatting recursive
 descriptors for debugging

---
 prost-reflect/src/dynamic/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 57a9262..ec4fd83 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -36,7 +36,7 @@ use crate::{
 ///
 /// It wraps a [`MessageDescriptor`] and the [`Value`] for each field of the message, and implements
 /// [`Message`][`prost::Message`].
-#[derive(Debug, Clone, PartialEq)]
+#[derive(Clone, PartialEq)]
 pub struct DynamicMessage {
     desc: MessageDescriptor,
     fields: DynamicMessageFieldSet,
@@ -107,6 +107,17 @@ pub enum SetFieldError {
     },
 }
 
+impl fmt::Debug for DynamicMessage {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // The debug format of a descriptor includes default values, so formatting it here would not
+        // terminate for recursive message types.
+        f.debug_struct("DynamicMessage")
+            .field("desc", &self.desc.full_name())
+            .field("fields", &self.fields)
+            .finish()
+    }
+}
+
 impl DynamicMessage {
     /// Creates a new, empty instance of [`DynamicMessage`] for the message type specified by the [`MessageDescriptor`].
     pub fn new(desc: MessageDescriptor) -> Self {
-- 
2.43.0


From 48502a15e331dd8d2ed3bf8f6e1e793b69f8000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 33/36] fix: forget the packages of files that failed to be
 added

The package of a file may have empty parts, and an empty package name
was kept as a definition in a file that no longer exists
---
 prost-reflect/src/descriptor/build/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index 8bd6619..6a5caa6 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -76,14 +76,8 @@ impl DescriptorPoolOffsets {
         pool.enums.truncate(self.enum_ as usize);
         pool.extensions.truncate(self.extension as usize);
         pool.services.truncate(self.service as usize);
-        pool.names.retain(|name, definition| match definition.kind {
-            DefinitionKind::Package => pool.files.iter().any(|f| {
-                f.prost.package().starts_with(name.as_ref())
-                    && matches!(
-                        f.prost.package().as_bytes().get(name.len()),
-                        None | Some(&b'.')
-                    )
-            }),
+        pool.names.retain(|_, definition| match definition.kind {
+            DefinitionKind::Package => definition.file < self.file,
             DefinitionKind::Message(message)
             | DefinitionKind::Field(message)
             | DefinitionKind::Oneof(message) => message < self.message,
-- 
2.43.0


From 9c2632d689e9580b7cafdd0511b384947343cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 34/36] fix: reject options named uninterpreted_option, which
 were silently dropped

---
 prost-reflect/src/descriptor/build/options.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index dcbdabb..c82339d 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -358,9 +358,13 @@ impl OptionsVisitor<'_> {
         file: FileIndex,
         path: Box<[i32]>,
     ) -> Result<(), DescriptorErrorKind> {
-        if option.name.is_empty() {
+        // `uninterpreted_option` is a reserved name, the field holding options not yet resolved.
+        let is_reserved = |part: &uninterpreted_option::NamePart| {
+            !part.is_extension && part.name_part == "uninterpreted_option"
+        };
+        if option.name.is_empty() || is_reserved(&option.name[0]) {
             return Err(DescriptorErrorKind::OptionNotFound {
-                name: String::new(),
+                name: fmt_option_name(&option.name),
                 found: Label::new(&self.pool.inner.files, "found here", file, path),
             });
         }
-- 
2.43.0


From b6afcc7c49d5265bee1ec53f9e95165064b8c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 35/36] fix: check the number of a field with an extendee set
 as that of a field, not of an extension

---
 prost-reflect/src/descriptor/build/resolve.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index f83cb92..7fbafb2 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -176,7 +176,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let syntax = self.pool.files[file as usize].syntax;
 
-        self.check_field_number(message, field, file, path);
+        self.check_field_number(message, field, false, file, path);
 
         let cardinality = match field.label() {
             field_descriptor_proto::Label::Optional => Cardinality::Optional,
@@ -448,7 +448,7 @@ impl Visitor for ResolveVisitor<'_> {
 
             self.pool.messages[extendee as usize].extensions.push(index);
 
-            self.check_field_number(extendee, extension, file, path);
+            self.check_field_number(extendee, extension, true, file, path);
         }
 
         let syntax = self.pool.files[file as usize].syntax;
@@ -510,6 +510,7 @@ impl ResolveVisitor<'_> {
         &mut self,
         message: MessageIndex,
         field: &FieldDescriptorProto,
+        is_extension: bool,
         file: FileIndex,
         path: &[i32],
     ) {
@@ -559,9 +560,9 @@ impl ResolveVisitor<'_> {
             .iter()
             .enumerate()
             .find(|(_, range)| range.start() <= field.number() && field.number() < range.end());
-        match (&field.extendee, extension_range) {
-            (None, None) | (Some(_), Some(_)) => (),
-            (None, Some((i, range))) => {
+        match (is_extension, extension_range) {
+            (false, None) | (true, Some(_)) => (),
+            (false, Some((i, range))) => {
                 self.errors
                     .push(DescriptorErrorKind::FieldNumberInExtensionRange {
                         number: field.number(),
@@ -580,7 +581,7 @@ impl ResolveVisitor<'_> {
                         ),
                     });
             }
-            (Some(_), None) => {
+            (true, None) => {
                 self.errors
                     .push(DescriptorErrorKind::ExtensionNumberOutOfRange {
                         number: field.number(),
-- 
2.43.0


From aad5c62d71a3cb7ee743ff3becc4887dccd9fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 36/36] fix: report a reserved enum number at the number of the
 value

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 7fbafb2..1d19019 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -654,7 +654,7 @@ impl ResolveVisitor<'_> {
                             &self.pool.files,
                             "defined here",
                             file,
-                            join_path(path, &[tag::field::NUMBER]),
+                            join_path(path, &[tag::enum_value::NUMBER]),
                         ),
                     });
             }
-- 
2.43.0

