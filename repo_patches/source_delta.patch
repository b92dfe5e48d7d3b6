From bc79bb3a2051af33d93770d41ce19638ecbf7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 1/5] fix: compact-wrapped byte array is not a signature in
 MultiSignature variants

---
 src/special_indicators.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/special_indicators.rs b/src/special_indicators.rs
index 743081f..2a69d54 100644
--- a/src/special_indicators.rs
+++ b/src/special_indicators.rs
@@ -279,6 +279,15 @@ impl SignatureIndicator {
         if let Ok(husked_field_ty) =
             husk_type::<E, M>(&field.ty, registry, ext_memory, Checker::new())
         {
+            // array within compact is not a signature
+            if husked_field_ty
+                .checker
+                .specialty_set
+                .reject_compact()
+                .is_err()
+            {
+                return Self::None;
+            }
             // check here that the underlying type is really `[u8; LEN]` array
             let array_u8_length = match husked_field_ty.ty.type_def {
                 TypeDef::Array(signature_array_ty) => {
-- 
2.43.0


From 3b69b2be8e6d35e2968b5dab03fced3924b1b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 2/5] fix: no panic on external memory failure while checking
 storage key hash

---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From 8965a1ddc27b7d58a1f247162cbfcea88bd8d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 3/5] fix: 32bit `BitVec` with `u64` store keeps all words of
 the last element

---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..7c081c3 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1076,7 +1076,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1088,9 +1088,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1099,7 +1097,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1112,9 +1110,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From de36fe7d7f5235b22ff23df462eff7c1d1ab8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 4/5] fix: external memory failures are not lost while checking
 special types

---
 src/decoding_sci.rs       |   6 +-
 src/special_indicators.rs | 120 ++++++++++++++++++++++++++++++--------
 2 files changed, 100 insertions(+), 26 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 7c081c3..6f1b4e6 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -276,7 +276,8 @@ where
     };
     let info_ty = Info::from_ty(&ty);
     propagated.add_info(&info_ty);
-    match SpecialtyTypeChecked::from_type::<B, E, M>(&ty, data, ext_memory, position, registry) {
+    match SpecialtyTypeChecked::try_from_type::<B, E, M>(&ty, data, ext_memory, position, registry)?
+    {
         SpecialtyTypeChecked::None => match &ty.type_def {
             TypeDef::Composite(x) => {
                 let field_data_set = decode_fields::<B, E, M>(
@@ -1045,6 +1046,9 @@ macro_rules! impl_patched {
                                     .try_into()
                                     .expect("constant size slice, always fits"),
                             ),
+                            Err(BufferError::External(e)) => {
+                                return Err(ParserError::Buffer(BufferError::External(e)))
+                            }
                             Err(_) => {
                                 return Err(ParserError::Buffer(
                                 BufferError::DataTooShort {
diff --git a/src/special_indicators.rs b/src/special_indicators.rs
index 2a69d54..7b57b09 100644
--- a/src/special_indicators.rs
+++ b/src/special_indicators.rs
@@ -7,13 +7,14 @@
 //! Additionally, some data should better be decoded directly as the custom type
 //! mentioned in metadata descriptors, rather than decoded as more generalized
 //! type and cast into custom type later on.
-use external_memory_tools::{AddressableBuffer, ExternalMemory};
+use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
 use scale_info::{form::PortableForm, Field, Path, Type, TypeDef, TypeDefPrimitive, Variant};
 
 use crate::std::{borrow::ToOwned, string::String, vec::Vec};
 
 use crate::cards::Info;
 use crate::decoding_sci::{husk_type, pick_variant};
+use crate::error::{ParserError, RegistryError};
 use crate::propagated::Checker;
 use crate::traits::{AsMetadata, ResolveType, SignedExtensionMetadata};
 
@@ -267,6 +268,8 @@ pub enum SignatureIndicator {
 impl SignatureIndicator {
     /// `SignatureIndicator` for a [`Field`]. Uses `type_name`, checks signature
     /// type to be an `u8` array of the known length.
+    ///
+    /// Any error results in `SignatureIndicator::None`.
     pub fn from_field<E, M>(
         field: &Field<PortableForm>,
         ext_memory: &mut E,
@@ -276,9 +279,27 @@ impl SignatureIndicator {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        if let Ok(husked_field_ty) =
-            husk_type::<E, M>(&field.ty, registry, ext_memory, Checker::new())
-        {
+        Self::try_from_field::<E, M>(field, ext_memory, registry).unwrap_or(Self::None)
+    }
+
+    /// `SignatureIndicator` for a [`Field`], same as
+    /// [`from_field`](Self::from_field), with external memory failures
+    /// reported as errors.
+    pub fn try_from_field<E, M>(
+        field: &Field<PortableForm>,
+        ext_memory: &mut E,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, ParserError<E>>
+    where
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        if let Some(husked_field_ty) = external_only(husk_type::<E, M>(
+            &field.ty,
+            registry,
+            ext_memory,
+            Checker::new(),
+        ))? {
             // array within compact is not a signature
             if husked_field_ty
                 .checker
@@ -286,25 +307,27 @@ impl SignatureIndicator {
                 .reject_compact()
                 .is_err()
             {
-                return Self::None;
+                return Ok(Self::None);
             }
             // check here that the underlying type is really `[u8; LEN]` array
             let array_u8_length = match husked_field_ty.ty.type_def {
                 TypeDef::Array(signature_array_ty) => {
                     let element_ty_id = signature_array_ty.type_param.id;
-                    if let Ok(element_ty) = registry.resolve_ty(element_ty_id, ext_memory) {
+                    if let Some(element_ty) =
+                        external_only(registry.resolve_ty(element_ty_id, ext_memory))?
+                    {
                         if let TypeDef::Primitive(TypeDefPrimitive::U8) = element_ty.type_def {
                             signature_array_ty.len
                         } else {
-                            return Self::None;
+                            return Ok(Self::None);
                         }
                     } else {
-                        return Self::None;
+                        return Ok(Self::None);
                     }
                 }
-                _ => return Self::None,
+                _ => return Ok(Self::None),
             };
-            match &field.type_name {
+            Ok(match &field.type_name {
                 Some(type_name) => match type_name.as_str() {
                     a if SIGNATURE_ECDSA_ID_SET.contains(&a) => {
                         if array_u8_length == substrate_crypto_light::ecdsa::SIGNATURE_LEN as u32 {
@@ -332,13 +355,29 @@ impl SignatureIndicator {
                     _ => Self::None,
                 },
                 None => Self::None,
-            }
+            })
         } else {
-            Self::None
+            Ok(Self::None)
         }
     }
 }
 
+/// Keep external memory failures as errors, all other errors become `None`.
+fn external_only<T, E, Err>(result: Result<T, Err>) -> Result<Option<T>, ParserError<E>>
+where
+    E: ExternalMemory,
+    Err: Into<ParserError<E>>,
+{
+    match result.map_err(Into::into) {
+        Ok(a) => Ok(Some(a)),
+        Err(
+            e @ (ParserError::Buffer(BufferError::External(_))
+            | ParserError::Registry(RegistryError::External(_))),
+        ) => Err(e),
+        Err(_) => Ok(None),
+    }
+}
+
 /// Nonbinding, propagating type specialty indicator.
 ///
 /// Propagates during the decoding into compacts and single-field structs and
@@ -595,6 +634,8 @@ impl SpecialtyTypeChecked {
     ///
     /// Checks type internal structure and uses input data for
     /// [`PalletSpecificItem`].
+    ///
+    /// Any error results in `SpecialtyTypeChecked::None`.
     pub fn from_type<B, E, M>(
         ty: &Type<PortableForm>,
         data: &B,
@@ -607,7 +648,26 @@ impl SpecialtyTypeChecked {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        match SpecialtyTypeHinted::from_type(ty) {
+        Self::try_from_type::<B, E, M>(ty, data, ext_memory, position, registry)
+            .unwrap_or(Self::None)
+    }
+
+    /// Get `SpecialtyTypeChecked` for a [`Type`], same as
+    /// [`from_type`](Self::from_type), with external memory failures reported
+    /// as errors.
+    pub fn try_from_type<B, E, M>(
+        ty: &Type<PortableForm>,
+        data: &B,
+        ext_memory: &mut E,
+        position: &mut usize,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, ParserError<E>>
+    where
+        B: AddressableBuffer<E>,
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        Ok(match SpecialtyTypeHinted::from_type(ty) {
             SpecialtyTypeHinted::None => Self::None,
             SpecialtyTypeHinted::AccountId32 => Self::AccountId32,
             SpecialtyTypeHinted::Era => Self::Era,
@@ -616,14 +676,19 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::H512 => Self::H512,
             SpecialtyTypeHinted::MultiSignature => {
                 if let TypeDef::Variant(x) = &ty.type_def {
-                    match pick_variant::<B, E>(&x.variants, data, ext_memory, *position) {
-                        Ok(signature_variant) => {
+                    match external_only(pick_variant::<B, E>(
+                        &x.variants,
+                        data,
+                        ext_memory,
+                        *position,
+                    ))? {
+                        Some(signature_variant) => {
                             if signature_variant.fields.len() == 1 {
-                                match SignatureIndicator::from_field::<E, M>(
+                                match SignatureIndicator::try_from_field::<E, M>(
                                     &signature_variant.fields[0],
                                     ext_memory,
                                     registry,
-                                ) {
+                                )? {
                                     SignatureIndicator::None => Self::None,
                                     SignatureIndicator::Ecdsa => {
                                         *position += ENUM_INDEX_ENCODED_LEN;
@@ -642,7 +707,7 @@ impl SpecialtyTypeChecked {
                                 Self::None
                             }
                         }
-                        Err(_) => Self::None,
+                        None => Self::None,
                     }
                 } else {
                     Self::None
@@ -652,13 +717,18 @@ impl SpecialtyTypeChecked {
                 if let TypeDef::Variant(x) = &ty.type_def {
                     // found specific variant corresponding to pallet,
                     // get pallet name from here
-                    match pick_variant::<B, E>(&x.variants, data, ext_memory, *position) {
-                        Ok(pallet_variant) => {
+                    match external_only(pick_variant::<B, E>(
+                        &x.variants,
+                        data,
+                        ext_memory,
+                        *position,
+                    ))? {
+                        Some(pallet_variant) => {
                             let pallet_name = pallet_variant.name.to_owned();
                             if pallet_variant.fields.len() == 1 {
                                 let item_ty_id = pallet_variant.fields[0].ty.id;
-                                match registry.resolve_ty(item_ty_id, ext_memory) {
-                                    Ok(variants_ty) => {
+                                match external_only(registry.resolve_ty(item_ty_id, ext_memory))? {
+                                    Some(variants_ty) => {
                                         if let SpecialtyTypeHinted::PalletSpecific(item_repeated) =
                                             SpecialtyTypeHinted::from_type(&variants_ty)
                                         {
@@ -684,13 +754,13 @@ impl SpecialtyTypeChecked {
                                             Self::None
                                         }
                                     }
-                                    Err(_) => Self::None,
+                                    None => Self::None,
                                 }
                             } else {
                                 Self::None
                             }
                         }
-                        Err(_) => Self::None,
+                        None => Self::None,
                     }
                 } else {
                     Self::None
@@ -708,6 +778,6 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::SignatureSr25519 => Self::SignatureSr25519,
             SpecialtyTypeHinted::SignatureEcdsa => Self::SignatureEcdsa,
             SpecialtyTypeHinted::UncheckedExtrinsic => Self::None,
-        }
+        })
     }
 }
-- 
2.43.0


From b0b9100576ef4d0896bbfea6283d6f2e2b8ecd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 5/5] fix: lengths larger than the remaining 32bit address
 space do not overflow

Declared call length and extrinsic length are checked against available
data before being added to the starting position.
---
 src/lib.rs                 | 3 +--
 src/unchecked_extrinsic.rs | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b74f580..66f7fda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,12 +581,11 @@ where
         let mut call_start: usize = 0;
         let call_length = get_compact::<u32, B, E>(data, ext_memory, &mut call_start)
             .map_err(|_| SignableError::CutSignable)? as usize;
-        let extensions_start = call_start + call_length;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
                 data,
                 call_start,
-                extensions_start,
+                extensions_start: call_start + call_length,
                 ext_memory_type: PhantomData,
                 metadata_type: PhantomData,
             }),
diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index d55d0a9..3ae0b5a 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -90,12 +90,13 @@ where
     let extrinsic_length = get_compact::<u32, B, E>(input, ext_memory, &mut extrinsic_start)
         .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;
     let len = input.total_len();
-    match (extrinsic_start + extrinsic_length).cmp(&len) {
+    let available_length = len - extrinsic_start;
+    match extrinsic_length.cmp(&available_length) {
         Ordering::Greater => {
             return Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(
                 BufferError::DataTooShort {
                     position: len,
-                    minimal_length: extrinsic_start + extrinsic_length - len,
+                    minimal_length: extrinsic_length - available_length,
                 },
             )))
         }
-- 
2.43.0

