From 16a853da83430808a2ee42d878309e3c61f2a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 01/16] fix: return an error when decoding a tuple from a too
 short array

Decoding a tuple from an array with fewer elements than the tuple has fields
panicked (Vec::remove out of bounds). Untrusted input must never panic.
---
 src/decode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..808e920 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,9 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut it = values.into_iter();
+                Ok((for_tuples!( #( Tuple::try_from_cbor_value(it.next().ok_or(DecodeError::MissingField)?)? ),* )))
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From 1cb00c5d1f4785c2b316b2ed277a07dc1e7a342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 02/16] fix: reject arrays with excess elements when decoding a
 tuple

Excess elements were silently dropped, so two different encodings decoded to
the same tuple value. Tuple structs and fixed-size arrays already reject this.
---
 src/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 808e920..5656b95 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -49,7 +49,11 @@ impl Decode for Tuple {
         match value {
             Value::Array(values) => {
                 let mut it = values.into_iter();
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(it.next().ok_or(DecodeError::MissingField)?)? ),* )))
+                let result = (for_tuples!( #( Tuple::try_from_cbor_value(it.next().ok_or(DecodeError::MissingField)?)? ),* ));
+                if it.next().is_some() {
+                    return Err(DecodeError::UnknownField);
+                }
+                Ok(result)
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From 74e94af520db5ac8d91e845593eea61e35fdbb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 03/16] fix: sort maps nested within map keys before comparing
 keys on encode

Map keys were sorted and deduplicated while maps contained in the keys were
still in insertion order, so the outer map could be written in non-canonical
order or with duplicate keys, producing output rejected by the strict reader.
---
 value/src/writer.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..80f911e 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -80,6 +80,9 @@ impl<'a> Writer<'a> {
                 }
             }
             Value::Map(mut map) => {
+                for (key, _) in map.iter_mut() {
+                    sort_nested_maps(key, remaining_depth.map(|d| d - 1));
+                }
                 map.sort_by(|a, b| a.0.cmp(&b.0));
                 let map_len = map.len();
                 map.dedup_by(|a, b| a.0.eq(&b.0));
@@ -118,6 +121,33 @@ impl<'a> Writer<'a> {
     }
 }
 
+/// Sort all maps contained in the given value by their keys, so that values which encode to the same
+/// bytes also compare as equal and values compare in the same order as their encodings.
+///
+/// Anything nested deeper than `remaining_depth` is left as is, as it will fail to encode anyway.
+fn sort_nested_maps(value: &mut Value, remaining_depth: Option<i8>) {
+    if remaining_depth.map_or(false, |d| d < 0) {
+        return;
+    }
+    let remaining_depth = remaining_depth.map(|d| d - 1);
+    match value {
+        Value::Array(array) => {
+            for el in array {
+                sort_nested_maps(el, remaining_depth);
+            }
+        }
+        Value::Map(map) => {
+            for (k, v) in map.iter_mut() {
+                sort_nested_maps(k, remaining_depth);
+                sort_nested_maps(v, remaining_depth);
+            }
+            map.sort_by(|a, b| a.0.cmp(&b.0));
+        }
+        Value::Tag(_, inner_value) => sort_nested_maps(inner_value, remaining_depth),
+        _ => {}
+    }
+}
+
 #[cfg(test)]
 mod test {
     use alloc::vec;
-- 
2.43.0


From d855376e6c918439a818d1649a8feb4d51d5064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 04/16] fix: never decode a float as a simple value in
 non-strict mode

The bits of a half, single or double precision float were interpreted as the
number of a simple value, so for example f9 00 15 (a tiny float) decoded as
true. Such values now decode to undefined like all other floats.
---
 value/src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..25225a2 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -231,8 +231,11 @@ impl<'a> Reader<'a> {
     ) -> Result<Value, DecoderError> {
         if additional_info > Constants::ADDITIONAL_INFORMATION_MAX_INT
             && additional_info != Constants::ADDITIONAL_INFORMATION_1_BYTE
-            && !self.non_strict
         {
+            if self.non_strict {
+                // The payload is a float, not the number of a simple value.
+                return Ok(Value::Simple(SimpleValue::Undefined));
+            }
             // TODO(kaczmarczyck) the chromium C++ reference allows equality to 24 here, why?
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
-- 
2.43.0


From 2143d3d0f541f34e663c4f4e0c789bf00fa83eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 05/16] fix: do not truncate negative integers below i64::MIN
 in serde deserializer

Negative integers that do not fit an i64 were silently wrapped into an
unrelated (even positive) number instead of being rejected.
---
 src/serde/de.rs    | 7 +++++--
 src/serde/error.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..d8f2d58 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
diff --git a/src/serde/error.rs b/src/serde/error.rs
index 8d24a01..c6ce911 100644
--- a/src/serde/error.rs
+++ b/src/serde/error.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::{convert::TryFrom, fmt::Display};
 
 use serde::{de, ser};
 
@@ -48,7 +48,10 @@ impl de::Error for Error {
 pub(crate) fn unexpected(v: &Value) -> de::Unexpected {
     match v {
         Value::Unsigned(n) => de::Unexpected::Unsigned(*n),
-        Value::Negative(n) => de::Unexpected::Signed(*n as i64),
+        Value::Negative(n) => match i64::try_from(*n) {
+            Ok(n) => de::Unexpected::Signed(n),
+            Err(_) => de::Unexpected::Other("negative integer"),
+        },
         Value::ByteString(s) => de::Unexpected::Bytes(s),
         Value::TextString(s) => de::Unexpected::Str(s),
         Value::Array(_) => de::Unexpected::Seq,
-- 
2.43.0


From 5c9c51efa2b2c1a238fefe7f5aaea1245c2efdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 06/16] fix: encode unit variants of internally tagged enums as
 a map

Encoding a unit variant of an internally tagged enum panicked as the inner
encoding was not a map. It now encodes as a map with just the tag, which is
what the derived decoder expects.
---
 derive/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..1c27167 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -339,7 +339,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        // Variants of internally tagged enums always need to encode as a map.
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From 0b10069190359718581c68a9562848e312c35fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 07/16] fix: honor serialize_with on optional fields

The custom function was silently ignored when encoding optional fields, while
deserialize_with was applied on decode, so such fields did not round trip.
---
 derive/src/encode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 1c27167..6423830 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -172,8 +172,13 @@ fn derive_struct(
                         // null value.
                         match &field.skip_serializing_if {
                             None => {
+                                let opt_field_value = if let Some(custom_encode_fn) = &field.serialize_with {
+                                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_optional_cbor_value(#custom_encode_fn(&#field_binding)))
+                                } else {
+                                    quote_spanned!(field_ty.span()=> __cbor::Encode::into_optional_cbor_value(#field_binding))
+                                };
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = #opt_field_value {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From 635656eb4f83336d3846f4e5c21da5662e8a40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 08/16] fix: accept unknown fields anywhere when allow_unknown
 is set

Unknown fields with keys sorting before any of the known fields were still
rejected, as the strict helper was used to look up the known fields.
---
 derive/src/decode.rs |  9 +++++++--
 src/macros.rs        | 13 +++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..a22f294 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,8 +148,13 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let destruct_fn = if allow_unknown {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value)
+                        } else {
+                            quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict)
+                        };
                         let field_value = quote!({
                             let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..6236717 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -2,6 +2,19 @@ use std::{cmp::Ordering, iter::Peekable};
 
 use crate::{values::Value, DecodeError};
 
+/// This function is an internal detail of the Decode derive macro, but has public visibility so
+/// that users of the macro can use it.
+///
+/// Any entries with keys smaller than the needle are skipped.
+pub fn destructure_cbor_map_peek_value(
+    it: &mut Peekable<std::vec::IntoIter<(Value, Value)>>,
+    needle: Value,
+) -> Result<Option<Value>, DecodeError> {
+    Ok(oasis_cbor_value::macros::destructure_cbor_map_peek_value(
+        it, needle,
+    ))
+}
+
 /// This function is an internal detail of the Decode derive macro, but has public visibility so
 /// that users of the macro can use it.
 pub fn destructure_cbor_map_peek_value_strict(
-- 
2.43.0


From ef5c916283f98ed1d3a27ecaf4b736ddeb869820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 09/16] fix: validate the content when decoding unit structs
 and variants

Unit structs decoded from any value whatsoever, and unit variants represented
as maps (as_struct or internally tagged enums) ignored any content, even with
allow_unknown not set.
---
 derive/src/decode.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index a22f294..f803952 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -24,6 +24,7 @@ pub fn derive(input: DeriveInput) -> TokenStream {
                 dec.transparent.is_present(),
                 dec.as_array.is_present(),
                 dec.allow_unknown.is_present(),
+                false,
                 fields,
                 quote!(Self),
             );
@@ -72,6 +73,7 @@ fn derive_struct(
     transparent: bool,
     as_array: bool,
     allow_unknown: bool,
+    unit_as_struct: bool,
     fields: darling::ast::Fields<&Field>,
     self_ty: TokenStream,
 ) -> TokenStream {
@@ -120,8 +122,26 @@ fn derive_struct(
 
             (extract_value, field_map_items)
         } else if fields.is_unit() {
-            // This is a unit struct with no fields.
-            (quote! {Vec::<()>::new()}, vec![])
+            // This is a unit struct or variant with no fields.
+            let extract_value = if unit_as_struct {
+                // Represented as an empty map.
+                quote! {
+                    match value {
+                        __cbor::Value::Map(map) => map,
+                        _ => return Err(__cbor::DecodeError::UnexpectedType),
+                    }
+                }
+            } else {
+                // Represented as null.
+                quote! {
+                    match value {
+                        __cbor::Value::Simple(__cbor::SimpleValue::NullValue | __cbor::SimpleValue::Undefined) => Vec::<()>::new(),
+                        _ => return Err(__cbor::DecodeError::UnexpectedType),
+                    }
+                }
+            };
+
+            (extract_value, vec![])
         } else {
             // Field represented as a map.
             let extract_value = quote! {
@@ -290,6 +310,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
                     false,
                     variant.as_array.is_present(),
                     variant.allow_unknown.is_present(),
+                    true,
                     variant.fields.as_ref(),
                     quote!(Self::#variant_ident),
                 );
-- 
2.43.0


From 90b4ded8d01912fda67d562fe347d1581e72cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 10/16] fix: make the encoding of HashSet deterministic

Items were encoded in the random iteration order of the set, so equal sets had
different encodings.
---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4714c54..788e2c1 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -289,7 +289,10 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Array(self.into_iter().map(Encode::into_cbor_value).collect())
+        // Sort the items as the iteration order is random and the encoding must be deterministic.
+        let mut items: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
+        items.sort();
+        Value::Array(items)
     }
 }
 
-- 
2.43.0


From 053f02f6e8a8c58d78591dad32a863e812dce77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 11/16] fix: decode embedded variants encoded as maps with
 other than one entry

An enum with any non-unit variants rejected such maps without consulting the
embedded variants, so its own encoding of an embedded value failed to decode.
---
 derive/src/decode.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index f803952..8fcd7a9 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -425,19 +425,26 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             Err(__cbor::DecodeError::UnknownField)
         }
     } else {
-        let embedded_decoders_map = if !embedded_decoders.is_empty() {
-            quote! {
-                let value = __cbor::Value::Map(vec![(key, value)]);
-                #(#embedded_decoders)*
-            }
+        let (embedded_decoders_map, embedded_decoders_non_variant_map) = if !embedded_decoders.is_empty() {
+            (
+                quote! {
+                    let value = __cbor::Value::Map(vec![(key, value)]);
+                    #(#embedded_decoders)*
+                },
+                quote! {
+                    let value = __cbor::Value::Map(map);
+                    #(#embedded_decoders)*
+                },
+            )
         } else {
-            quote!()
+            (quote!(), quote!())
         };
 
         quote! {
             match value {
                 __cbor::Value::Map(mut map) => {
                     if map.len() != 1 {
+                        #embedded_decoders_non_variant_map
                         return Err(__cbor::DecodeError::UnknownField);
                     }
 
-- 
2.43.0


From 59e82ed582951df82f0f62f799432c4035d9a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 12/16] fix: reject arrays with excess elements in serde
 deserializer

Excess elements were silently dropped when deserializing tuples, fixed-size
arrays and tuple structs or variants.
---
 src/serde/de.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index d8f2d58..ebd7597 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -119,7 +119,13 @@ impl<'de> de::Deserializer<'de> for Deserializer {
             Value::Array(a) => a,
             _ => return Err(Error::invalid_type(unexpected(&self.0), &"array")),
         };
-        visitor.visit_seq(SeqAccessImpl(items.into_iter()))
+        let len = items.len();
+        let mut seq = SeqAccessImpl(items.into_iter());
+        let value = visitor.visit_seq(&mut seq)?;
+        match seq.0.next() {
+            None => Ok(value),
+            Some(_) => Err(Error::invalid_length(len, &"fewer elements in array")),
+        }
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-- 
2.43.0


From 31dbdf7665789c2cf5184d5c38d2eddbac19d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 13/16] fix: do not fail on tagged values in ignored fields in
 serde deserializer

Unknown fields that serde ignores made decoding fail when the ignored value
contained a CBOR tag.
---
 src/serde/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index ebd7597..68c4e4a 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -51,7 +51,14 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         newtype_struct tuple_struct
         tuple
         unit unit_struct
-        ignored_any
+    }
+
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        // Any value can be ignored, including those not supported otherwise (e.g. tags).
+        visitor.visit_unit()
     }
 
     fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 3847356d8995c163d1981b240f0ac522d0a42bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 14/16] fix: never omit optional fields of types that cannot be
 decoded when missing

An optional field of a no_default type was omitted when its encoding was
empty, while the decoder then failed because of the missing field.
---
 derive/src/encode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 6423830..c089230 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -47,7 +47,12 @@ pub fn derive(input: DeriveInput) -> TokenStream {
     let enc_ty_ident = &enc.ident;
     let (imp, ty, wher) = enc.generics.split_for_impl();
     let enc_impl = derived.enc_impl;
-    let opt_enc_impl = derived.opt_enc_impl;
+    let opt_enc_impl = if enc.no_default.is_present() {
+        // The type cannot be decoded when missing, so it must never be omitted.
+        quote! { Some(self.into_cbor_value()) }
+    } else {
+        derived.opt_enc_impl
+    };
 
     // Implement the EncodeAsMap marker trait in case the type is known to encode as a map. This
     // allows operations to only operate on such types.
-- 
2.43.0


From caf4a939b5755d691f2d9ae8aab31207125f5264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 15/16] fix: enums embedding other types only encode as a map
 if those do

---
 derive/src/encode.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index c089230..40a43ec 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -1,7 +1,7 @@
 use darling::FromDeriveInput;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
-use syn::{spanned::Spanned, DeriveInput, Ident, Index, Member};
+use syn::{parse_quote, spanned::Spanned, DeriveInput, Ident, Index, Member};
 
 use crate::{
     common::{Codable, Field, Variant},
@@ -57,9 +57,24 @@ pub fn derive(input: DeriveInput) -> TokenStream {
     // Implement the EncodeAsMap marker trait in case the type is known to encode as a map. This
     // allows operations to only operate on such types.
     let encode_as_map = if derived.encode_as_map {
+        // Embedded variants only encode as a map if the embedded type does. The higher-ranked bound
+        // makes this a condition instead of an error in case the embedded type is not generic.
+        let mut map_generics = enc.generics.clone();
+        if let darling::ast::Data::Enum(variants) = enc.data.as_ref() {
+            for variant in variants.iter().filter(|v| v.embed.is_present()) {
+                for field in variant.fields.iter() {
+                    let field_ty = &field.ty;
+                    map_generics.make_where_clause().predicates.push(
+                        parse_quote!(for<'__cbor> #field_ty: __cbor::EncodeAsMap),
+                    );
+                }
+            }
+        }
+        let (_, _, map_wher) = map_generics.split_for_impl();
+
         quote! {
             #[automatically_derived]
-            impl #imp __cbor::EncodeAsMap for #enc_ty_ident #ty #wher {}
+            impl #imp __cbor::EncodeAsMap for #enc_ty_ident #ty #map_wher {}
         }
     } else {
         quote!()
-- 
2.43.0


From 189cb480bc21bc0c67f68e28f42c75cdda4dc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 16/16] fix: apply custom conversions of newtype variants and
 transparent structs

---
 derive/src/decode.rs | 10 ++++------
 derive/src/encode.rs | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 8fcd7a9..903240b 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -80,8 +80,8 @@ fn derive_struct(
     if transparent {
         // Transparently forward the implementation to the underlying type. This is only valid for
         // newtype structs.
-        let decode_fn = quote_spanned!(ident.span()=> __cbor::Decode::try_from_cbor_value_default);
-        quote!(Self(#decode_fn(value)?))
+        let decode_fn = field_decode_fn(fields.fields[0]);
+        quote_spanned!(ident.span()=> Self(#decode_fn(value)?))
     } else {
         // Process all fields and decode the structure as a map or array.
         let as_array = fields.is_tuple() || fields.is_newtype() || as_array;
@@ -290,8 +290,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
 
             let decoder = if variant.fields.is_newtype() {
                 // Newtype variants map the key directly to the inner value as if transparent was used.
-                let decode_fn =
-                    quote_spanned!(variant.ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+                let decode_fn = field_decode_fn(&variant.fields.fields[0]);
                 quote!(Self::#variant_ident(#decode_fn(value)?))
             } else {
                 if dec.tag.is_some() && (variant.as_array.is_present() || variant.fields.is_tuple()) {
@@ -377,8 +376,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             }
 
             let variant_ident = &variant.ident;
-            let decode_fn =
-                quote_spanned!(variant.ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+            let decode_fn = field_decode_fn(&variant.fields.fields[0]);
 
             // TODO: Can we get rid of clone?
             Some(quote! {
diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 40a43ec..555264f 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -98,6 +98,14 @@ pub fn derive(input: DeriveInput) -> TokenStream {
     })
 }
 
+/// The value to encode for a field, with its custom conversion applied (if any).
+fn encoded_value(field: &Field, binding: TokenStream) -> TokenStream {
+    match &field.serialize_with {
+        Some(custom_encode_fn) => quote!( #custom_encode_fn(&#binding) ),
+        None => binding,
+    }
+}
+
 fn derive_struct(
     ident: &Ident,
     transparent: bool,
@@ -129,9 +137,11 @@ fn derive_struct(
         let encode_fn = quote_spanned!(ident.span()=> __cbor::Encode::into_cbor_value);
         let opt_encode_fn = quote_spanned!(ident.span()=> __cbor::Encode::into_optional_cbor_value);
 
+        let value = encoded_value(fields.fields[0], quote!(self.0));
+
         DeriveResult {
-            enc_impl: quote!(#encode_fn(self.0)),
-            opt_enc_impl: quote!(#opt_encode_fn(self.0)),
+            enc_impl: quote!(#encode_fn(#value)),
+            opt_enc_impl: quote!(#opt_encode_fn(#value)),
             encode_as_map: false, // We cannot be sure that the inner type encodes as map.
         }
     } else {
@@ -312,7 +322,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                     return (quote!(), false);
                 }
                 // TODO: It would be great if this somehow ensured that there was no overlap etc.
-                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, true);
+                let value = encoded_value(&variant.fields.fields[0], quote!(inner));
+                return (quote! { Self::#variant_ident(inner) => #encode_fn(#value), }, true);
             }
 
             if variant.fields.is_unit() && !variant.as_struct.is_present() && enc.tag.is_none() {
@@ -328,7 +339,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                 // For others, encode as a map.
                 if variant.fields.is_newtype() {
                     // Newtype variants map the key directly to the inner value as if transparent was used.
-                    let inner = quote!(#encode_fn(inner));
+                    let value = encoded_value(&variant.fields.fields[0], quote!(inner));
+                    let inner = quote!(#encode_fn(#value));
                     let wrapper = maybe_wrap_map(variant, key, inner);
 
                     (quote! { Self::#variant_ident(inner) => #wrapper, }, true)
-- 
2.43.0

