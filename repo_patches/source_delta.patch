From e33f04f3392e69527cbf64f1f82d0e50299a8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 01/14] fix: no overflow panic on a declared length near the
 maximum

---
 src/context.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..9eec42f 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -56,8 +56,6 @@ impl<'a> CborDataReader<'a> {
             });
         }
         let offseted_rem = rem - offset;
-        let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,7 +63,8 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
-            Ok(&self.data[start..end])
+            let start = self.index + offset;
+            Ok(&self.data[start..start + n])
         }
     }
 
-- 
2.43.0


From 88190e82436934f238eab19076b17d36169659d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 02/14] fix: null and undefined reads refuse the other
 constants

---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..4db591f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -289,14 +289,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From 926e4c1d3c0c1134f27411a95e8ff7483bffe8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 03/14] fix: reject foreign items in indefinite strings and
 keys without value in indefinite maps

---
 src/state.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..413cfc2 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,7 @@ use std::fmt;
 #[derive(Debug, Clone, Copy)]
 enum StreamType {
     Array,
-    Map,
+    Map { exp_val: bool },
     Bytes,
     Text,
 }
@@ -28,7 +28,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map { .. } => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +155,10 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map { exp_val }) => {
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -218,6 +222,16 @@ impl State {
                 self.push_stream(new_stream)?;
                 Ok(())
             }
+            // the chunks of an indefinite Bytes are only Bytes, the ones of a Text only Text
+            Some(_b)
+                if matches!(
+                    (self.ctx.last(), new_stream),
+                    (Some(StructTy::Stream(StreamType::Bytes)), StreamType::Text)
+                        | (Some(StructTy::Stream(StreamType::Text)), StreamType::Bytes)
+                ) =>
+            {
+                Err(StateError::InvalidTypeInChunk)
+            }
             // A regular text or bytes, we can just call item_simple
             Some(_b) => {
                 self.advance()?;
@@ -261,6 +275,13 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        match self.ctx.last() {
+            Some(StructTy::Stream(s)) if s.composite_scalar() => {
+                return Err(StateError::InvalidTypeInChunk);
+            }
+            _ => (),
+        };
+
         self.advance()?;
         self.check_reduce()
     }
@@ -288,7 +309,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map { exp_val: false }, |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -297,6 +318,10 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            // a key without its value
+            Some(StructTy::Stream(StreamType::Map { exp_val: true })) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From 8e99684b7c80ff86e59dc5c02e20d84dfca1a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 04/14] fix: Validator::next does not resume with the state
 left by a failed call

---
 src/validate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..77561c0 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -162,6 +162,9 @@ impl<'a> Validator<'a> {
     pub fn next(&mut self) -> Result<(&'a CborSlice, usize), ValidateError> {
         let start = self.reader.index;
 
+        // a previous call might have stopped on an error with structures left open
+        self.state = State::new();
+
         loop {
             let (ld, advance, ival) = self.header_parts()?;
             let header = Header::from_parts(ld, ival);
-- 
2.43.0


From f792807bd3ca4830a789d15bfb1ff83dfda88b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 05/14] fix: canonical form of the simple values 20 to 23

---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..7d9f72e 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -184,16 +184,17 @@ impl HeaderValue8 {
 
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            // 20 to 23 are the constants in the immediate form
+            _ if v < 20 => Self::Imm(v as u8),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 20, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 20,
         }
     }
 }
-- 
2.43.0


From 4041ea7016a0bef0334d2ba8cd43408f13cd2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 06/14] fix: decode rationals with a negative bignum numerator

---
 src/tagged.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..3ecad34 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -167,6 +167,8 @@ impl RationalNumber {
                     Type::Tag => PositiveBignum::read(&mut inner_reader)
                         .map(RationalNumerator::PositiveBignum)
                         .or_else(|_| {
+                            // start over, as the tag has been consumed by the first attempt
+                            inner_reader = array[0].reader();
                             NegativeBignum::read(&mut inner_reader)
                                 .map(RationalNumerator::NegativeBignum)
                         }),
-- 
2.43.0


From df02ee55a4ceff095100b5e2aba895c8cdc9971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 07/14] fix: empty input is an error of the first read, not a
 panic

---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4db591f..291430d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index 77561c0..6379be7 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From 578b511dc0ce8da1865e6ccd8a02127651fcf161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 08/14] fix: CborData::validate_as refuses trailing data

---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From d14a40db1338ebc820c6e6c2f3eafc2957b3f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 09/14] fix: derived map decoding honours map_starts_at

---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From be760f3fedfb7a951091ae889b6fc1c498f66aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 10/14] fix: derived map decoding tracks duplicated keys of any
 magnitude

---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..e6ad991 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(::cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 744b261c1ca819118a466875cae4623beced012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 11/14] fix: derived flat decoding reads the configured tag

---
 cbored-derive/src/product.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index e6ad991..131a6df 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,18 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => {
+            let r = if tag_structure {
+                quote! {
+                    #tag_wrapper
+                    let mut tag_reader = tag.reader();
+                    let reader = &mut tag_reader;
+                }
+            } else {
+                quote! {}
+            };
+            (r, DeStructure::Flat)
+        }
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
@@ -443,6 +454,13 @@ pub(crate) fn derive_struct_de(
 
     let prelude_deser = quote! { #prelude_sty_de };
 
+    // A tag holds exactly one element, so the fields of a flat structure need to use it all
+    let flat_finish = if tag_structure {
+        quote! { reader.expect_finished().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?; }
+    } else {
+        quote! {}
+    };
+
     let mut de_bodies = Vec::new();
 
     // create the quote that deserialize all the elements one by one
@@ -605,6 +623,7 @@ pub(crate) fn derive_struct_de(
                     quote! {
                         #prelude_deser
                         #( #de_bodies )*
+                        #flat_finish
                         Ok(#name { #(#field_names),* })
                     }
                 }
@@ -637,10 +656,15 @@ pub(crate) fn derive_struct_de(
             }
 
             let indexes = fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>();
+            let finish = match structure {
+                DeStructure::Flat => flat_finish,
+                _ => quote! {},
+            };
 
             quote! {
                 #prelude_deser
                 #( #de_bodies )*
+                #finish
                 Ok(#name ( #(#indexes),* ))
             }
         }
-- 
2.43.0


From 0771038a8ef540eabbc165e854fcdda1cffde108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 12/14] fix: derived enum numbering applies variant_starts_at
 once

---
 cbored-derive/src/sum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..24f6c13 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -183,7 +183,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = attrs.variant_starts_at + variant_index;
+            let variant_number = *variant_index;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let nb_items = variant.fields.len();
 
-- 
2.43.0


From e92caee1351db06a95dcea579d4cb12901475484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 13/14] fix: derived enumtype enums with a null variant compile

---
 cbored-derive/src/sum.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 24f6c13..b3e7ea1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -141,7 +141,7 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 { #field_name }
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     Some(StructOutput::Unnamed(field_names)) => {
@@ -153,12 +153,12 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 ( #field_name )
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From 33ee465e696b456169a74b19c7261e3baa694023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 14/14] fix: keep the error of a positive bignum numerator with
 the wrong content

A numerator tagged 2 whose content is not a byte string was retried as a
negative bignum, and refused with a wrong tag instead of a wrong type.
---
 src/tagged.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tagged.rs b/src/tagged.rs
index 3ecad34..cfddea9 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -164,14 +164,15 @@ impl RationalNumber {
                 let res = match inner_reader.peek_type()? {
                     Type::Positive => inner_reader.positive().map(RationalNumerator::Positive),
                     Type::Negative => inner_reader.negative().map(RationalNumerator::Negative),
-                    Type::Tag => PositiveBignum::read(&mut inner_reader)
-                        .map(RationalNumerator::PositiveBignum)
-                        .or_else(|_| {
+                    Type::Tag => match PositiveBignum::read(&mut inner_reader) {
+                        Err(ReaderError::WrongExpectedTag { .. }) => {
                             // start over, as the tag has been consumed by the first attempt
                             inner_reader = array[0].reader();
                             NegativeBignum::read(&mut inner_reader)
                                 .map(RationalNumerator::NegativeBignum)
-                        }),
+                        }
+                        res => res.map(RationalNumerator::PositiveBignum),
+                    },
                     ty => Err(ReaderError::WrongExpectedTypes {
                         expected: &[Type::Positive, Type::Negative, Type::Tag],
                         got: ty,
-- 
2.43.0

