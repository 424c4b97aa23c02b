From 371b86d2619a7ded7863406e4c5d3f1bd0be5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 01/19] fix: rewind the reader when the value of a try field
 cannot be read

---
 binread_derive/src/codegen/read_options/struct.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..893cc0a 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -356,7 +356,16 @@ impl<'field> FieldGenerator<'field> {
         } else {
             let result = self.out;
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)?;
+                    match #result {
+                        Ok(#TEMP) => Some(#TEMP),
+                        Err(_) => {
+                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))?;
+                            None
+                        }
+                    }
+                }}
             } else {
                 let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
-- 
2.43.0


From 6b1819a494c4d8a042c69d5c698db7b746e7df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 02/19] fix: forward post-processing through Box

---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From f01262536dbab58d4fa464abeef3a0d5c964a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 03/19] fix: make no_std Cursor::seek move for SeekFrom::End
 and reject overflow

---
 binread/src/io/cursor.rs | 41 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..6a51e90 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,33 +51,28 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
+        let (base, offset) = match pos {
             SeekFrom::Start(x) => {
                 self.pos = x;
-                Ok(self.pos)
+                return Ok(self.pos);
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    Ok(self.pos)
-                }
+            SeekFrom::Current(x) => (self.pos, x),
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+        };
+        let target = if offset < 0 {
+            base.checked_sub(offset.wrapping_neg() as u64)
+        } else {
+            base.checked_add(offset as u64)
+        };
+        match target {
+            Some(target) => {
+                self.pos = target;
+                Ok(self.pos)
             }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From ae0c78e842c0ec51e8e20d469e8e37fed81c0b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 04/19] fix: do not allocate from an untrusted element count
 before reading

---
 binread/src/helpers.rs    | 12 +++++++++---
 binread/src/punctuated.rs |  8 ++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..7f7315a 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,7 @@ use crate::{
     BinRead, BinReaderExt, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 /// A helper for more efficiently mass-reading bytes
 ///
@@ -30,8 +30,14 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+    // The count is untrusted, so memory is only claimed as the data shows up
+    const CHUNK_SIZE: usize = 0x1000;
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        buf.resize(start + CHUNK_SIZE.min(count - start), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..d6e3d1e 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -66,8 +66,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(T::read_options(reader, &options, args)?);
@@ -92,8 +92,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(T::read_options(reader, &options, args)?);
-- 
2.43.0


From 404df3a1e604e0c0df05e54007882e3ed468fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 05/19] fix: post-process the elements of punctuated lists

---
 binread/src/punctuated.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index d6e3d1e..78272dc 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -1,6 +1,7 @@
 //! A module for [`Punctuated<T, P>`](Punctuated), a series of items to parse of type T separated
 //! by punction of type `P`.
 
+use crate::error::read_options_then_after_parse;
 use crate::io::{Read, Seek};
 use crate::{BinRead, BinResult, ReadOptions};
 #[cfg(not(feature = "std"))]
@@ -70,9 +71,9 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for i in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
             if i + 1 != count {
-                seperators.push(P::read_options(reader, options, ())?);
+                seperators.push(read_options_then_after_parse(reader, options, ())?);
             }
         }
 
@@ -96,8 +97,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for _ in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
-            seperators.push(P::read_options(reader, options, ())?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
+            seperators.push(read_options_then_after_parse(reader, options, ())?);
         }
 
         Ok(Self { data, seperators })
-- 
2.43.0


From 49d9a257382380716b6a9912e9bbeea96e623ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:42 +0000
Subject: [PATCH 06/19] fix: pass the read options through the until,
 until_exclusive, until_eof and count helpers

---
 binread/src/helpers.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 7f7315a..9b8a4e5 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,10 +1,22 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinReaderExt, BinResult, ReadOptions,
+    BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
 
+// Elements see the options of the field the helper is used on
+fn read_element<R, T>(reader: &mut R, ro: &ReadOptions, args: T::Args) -> BinResult<T>
+where
+    T: BinRead,
+    R: Read + Seek,
+{
+    let mut value = T::read_options(reader, ro, args)?;
+    value.after_parse(reader, ro, args)?;
+
+    Ok(value)
+}
+
 /// A helper for more efficiently mass-reading bytes
 ///
 ///## Example:
@@ -70,11 +82,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         result.push(last);
@@ -111,11 +123,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         Ok(result.into_iter().collect())
@@ -146,13 +158,13 @@ where
     Ret: core::iter::FromIterator<T>,
 {
     let mut result = Vec::new();
-    let mut last = reader.read_type_args(ro.endian, args.clone());
+    let mut last = read_element(reader, ro, args.clone());
 
     while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-                reader.read_type_args(ro.endian, args.clone())
+                read_element(reader, ro, args.clone())
             }
             Err(err) => return Err(err),
         }
@@ -189,7 +201,7 @@ where
 {
     move |reader, ro, args| {
         (0..n)
-            .map(|_| reader.read_type_args(ro.endian, args.clone()))
+            .map(|_| read_element(reader, ro, args.clone()))
             .collect()
     }
 }
-- 
2.43.0


From 36975028658f6c6e19a9a71ff33411307000ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:42 +0000
Subject: [PATCH 07/19] fix: return position errors instead of panicking with
 debug_template

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..a82a48a 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -84,7 +84,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..6ed9303 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -155,7 +155,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -188,7 +188,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From 5bce535075de4e678c6184f89ac4e58ede6d1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 08/19] fix: do not panic in NullString::to_string on invalid
 UTF-8

---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 6ed9303..558c81b 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -241,7 +241,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into()
     }
 }
 
-- 
2.43.0


From 51a46bf34b6d9a4304000d8eb1e19a2d938efbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:39 +0000
Subject: [PATCH 09/19] fix: return I/O errors from try_map as Error::Io and do
 not require std in its generated code

---
 binread/src/private.rs                     | 13 +++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..d6dbc98 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -34,6 +34,19 @@ where
     }
 }
 
+// The error of a `try_map` function is an I/O error when it is one, and a custom
+// error carrying it otherwise.
+pub fn map_error<E>(pos: u64, error: E) -> Error
+where
+    E: core::any::Any + Sync + Send + 'static,
+{
+    let error: Box<dyn core::any::Any + Sync + Send> = Box::new(error);
+    match error.downcast::<io::Error>() {
+        Ok(error) => Error::Io(*error),
+        Err(err) => Error::Custom { pos, err },
+    }
+}
+
 // This validates the map function return value by trying to coerce it into
 // a function with the expected return type. If this is not done, the
 // compiler will emit the diagnostic on the `#[derive(BinRead)]` attribute
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..09aa433 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -143,12 +143,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #MAP_ERROR(#pos, e))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..853d045 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -50,6 +50,7 @@ ident_str! {
     pub(super) ASSERT_MAGIC = from_crate!(error::magic);
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
+    pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
-- 
2.43.0


From c8c43272ebbad7222e7c4d8a0a578639bad34ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:21 +0000
Subject: [PATCH 10/19] fix: honour byte order, magic, imports and pre_assert
 on mapped types

---
 binread_derive/src/codegen/read_options.rs   | 26 +++++++++++++-------
 binread_derive/src/parser/top_level_attrs.rs |  4 +--
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 09aa433..c350811 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -21,15 +21,9 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
         },
         Map::Try(map) => {
             let map_err = get_map_err(POS);
-            quote! {
-                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    #map(value)#map_err
-                })
-            }
+            generate_mapped(input, &quote! { (#map)(#TEMP)#map_err? })
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => generate_mapped(input, &quote! { (#map)(#TEMP) }),
     };
 
     quote! {
@@ -43,6 +37,20 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     }
 }
 
+fn generate_mapped(input: &Input, mapped_value: &TokenStream) -> TokenStream {
+    let prelude = PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish();
+
+    quote! {
+        #prelude
+        let #TEMP = #READ_METHOD(#READER, #OPT, #ARGS)?;
+        Ok(#mapped_value)
+    }
+}
+
 struct PreludeGenerator<'input> {
     input: &'input Input,
     out: TokenStream,
@@ -90,7 +98,7 @@ impl<'input> PreludeGenerator<'input> {
 
     fn add_magic_pre_assertion(mut self) -> Self {
         let magic = get_magic(self.input.magic(), &OPT);
-        let pre_assertions = get_assertions(&self.input.pre_assertions());
+        let pre_assertions = get_assertions(self.input.pre_assertions());
         let head = self.out;
 
         self.out = quote! {
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index ec7f8a3..bd894d8 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -91,11 +91,11 @@ impl Input {
         }
     }
 
-    pub(crate) fn pre_assertions(&self) -> &Vec<Assert> {
+    pub(crate) fn pre_assertions(&self) -> &[Assert] {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
             Input::Enum(e) => &e.pre_assertions,
-            Input::UnitOnlyEnum(_) => unimplemented!("`Input::pre_assert()` called on unit enum"),
+            Input::UnitOnlyEnum(_) => &[],
         }
     }
 }
-- 
2.43.0


From 8043699aec02555d2c4113661dee678cd8580202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 11/19] fix: enforce type-level assertions of unit structs and
 mapped types

---
 binread_derive/src/codegen/read_options.rs        | 5 ++++-
 binread_derive/src/codegen/read_options/struct.rs | 7 +++++++
 binread_derive/src/parser/top_level_attrs.rs      | 8 ++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index c350811..9a9f92f 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -43,11 +43,14 @@ fn generate_mapped(input: &Input, mapped_value: &TokenStream) -> TokenStream {
         .add_options()
         .add_magic_pre_assertion()
         .finish();
+    let assertions = get_assertions(input.assertions());
 
     quote! {
         #prelude
         let #TEMP = #READ_METHOD(#READER, #OPT, #ARGS)?;
-        Ok(#mapped_value)
+        let #TEMP = #mapped_value;
+        #(#assertions)*
+        Ok(#TEMP)
     }
 }
 
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 893cc0a..df3077e 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -9,8 +9,15 @@ use syn::Ident;
 pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
     let prelude = get_prelude(input);
     let return_type = get_return_type(variant_ident);
+    // Assertions on an enum can use fields which a unit variant does not have
+    let assertions = match input {
+        Input::UnitStruct(st) => st.assertions.as_slice(),
+        _ => &[],
+    };
+    let assertions = get_assertions(assertions);
     quote! {
         #prelude
+        #(#assertions)*
         Ok(#return_type)
     }
 }
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index bd894d8..57fccb2 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -91,6 +91,14 @@ impl Input {
         }
     }
 
+    pub(crate) fn assertions(&self) -> &[Assert] {
+        match self {
+            Input::Struct(s) | Input::UnitStruct(s) => &s.assertions,
+            Input::Enum(e) => &e.assertions,
+            Input::UnitOnlyEnum(_) => &[],
+        }
+    }
+
     pub(crate) fn pre_assertions(&self) -> &[Assert] {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
-- 
2.43.0


From 62460952c9c4f71948c1117cfeac52c385cc6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 12/19] fix: honour magic, imports and pre_assert on all
 unit-like enums

---
 binread_derive/src/codegen/read_options/enum.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..2ef0640 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -23,14 +23,22 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant
+            .pre_assertions
+            .iter()
+            .map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish();
 
     quote! {
         #prelude
@@ -51,6 +59,7 @@ fn generate_unit_enum_magic(
     let prelude = PreludeGenerator::new(input)
         .add_imports()
         .add_options()
+        .add_magic_pre_assertion()
         .finish();
 
     let matches = variants.iter().filter_map(|field| {
-- 
2.43.0


From 6a8dfccdad35dd47a994694309ec4f31023ed645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 13/19] fix: let fields which read no value have a magic

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index df3077e..3dd7509 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -226,7 +226,7 @@ impl<'field> FieldGenerator<'field> {
         Self {
             field,
             out: TokenStream::new(),
-            emit_options_vars: get_after_parse_handler(field).is_some(),
+            emit_options_vars: field.magic.is_some() || get_after_parse_handler(field).is_some(),
         }
     }
 
-- 
2.43.0


From 8f6aa13ebba5cd3d709ace0da8b93874b4634c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 14/19] fix: do not bring alloc into the scope of user
 expressions

---
 binread/src/private.rs                          | 4 ++++
 binread_derive/src/codegen/read_options/enum.rs | 3 +--
 binread_derive/src/codegen/sanitization.rs      | 1 +
 binread_derive/src/parser/types/assert.rs       | 3 +--
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index d6dbc98..bb1471f 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -1,4 +1,8 @@
 use crate::{io, BinRead, BinResult, Error, ReadOptions};
+// Generated code reaches `alloc` through here so that it does not have to bring
+// the name into the scope of user expressions
+pub extern crate alloc;
+
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, string::String};
 
diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index 2ef0640..f8956ee 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -98,8 +98,7 @@ pub(super) fn generate_data_enum(en: &Enum) -> TokenStream {
     let (create_error_basket, return_error) = if return_all_errors {
         (
             quote! {
-                extern crate alloc;
-                let mut #ERROR_BASKET: alloc::vec::Vec<(&'static str, #BIN_ERROR)> = alloc::vec::Vec::new();
+                let mut #ERROR_BASKET: #VEC<(&'static str, #BIN_ERROR)> = #VEC::new();
             },
             quote! {
                 Err(#BIN_ERROR::EnumErrors {
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 853d045..1c0293f 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -50,6 +50,7 @@ ident_str! {
     pub(super) ASSERT_MAGIC = from_crate!(error::magic);
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
+    pub(super) VEC = from_crate!(__private::alloc::vec::Vec);
     pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
diff --git a/binread_derive/src/parser/types/assert.rs b/binread_derive/src/parser/types/assert.rs
index 5a4002f..42176da 100644
--- a/binread_derive/src/parser/types/assert.rs
+++ b/binread_derive/src/parser/types/assert.rs
@@ -36,8 +36,7 @@ impl<K: Parse + Spanned> TryFrom<attrs::AssertLike<K>> for Assert {
                 lit: Lit::Str(message),
                 ..
             })) => Some(Error::Message(quote! {
-                extern crate alloc;
-                alloc::format!(#message #(, #args)*)
+                binread::__private::alloc::format!(#message #(, #args)*)
             })),
             Some(error) => {
                 super::assert_all_args_consumed(args, value.ident.span())?;
-- 
2.43.0


From 0dda2699eb85743b7d386cb8e2c46a5f663e8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:24 +0000
Subject: [PATCH 15/19] fix: file pointers too large for a seek no longer wrap
 around

---
 binread/src/file_ptr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a82a48a..160f7e8 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -26,6 +26,7 @@
 //!
 //! Use `offset` to change what the pointer is relative to (default: beginning of reader).
 use super::*;
+use core::convert::TryFrom;
 use core::fmt;
 use core::ops::{Deref, DerefMut};
 
@@ -162,7 +163,9 @@ macro_rules! impl_into_seek_from {
         $(
             impl IntoSeekFrom for $t {
                 fn into_seek_from(self) -> SeekFrom {
-                    SeekFrom::Current(self as i64)
+                    // a pointer no seek can express leads past the end of any data instead of
+                    // wrapping around to some other position
+                    SeekFrom::Current(i64::try_from(self).unwrap_or(i64::MAX))
                 }
             }
         )*
-- 
2.43.0


From 6276199ff064c7a8cf3227f9d308fa2eef7ce1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:06 +0000
Subject: [PATCH 16/19] fix: pad_size_to does not overflow when the value moves
 the reader backwards

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 3dd7509..81bd3be 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -445,7 +445,7 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let size = #POS_TRAIT::stream_pos(#READER)#handle_error?.wrapping_sub(#POS) as i64;
             if size < pad {
                 #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
             }
-- 
2.43.0


From fc81b875fdab467cfaa7e9406fdd924c6a25f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 17/19] fix: every binding of generated code has a reserved
 name

---
 binread_derive/src/codegen/read_options.rs         |  6 +++---
 .../src/codegen/read_options/debug_template.rs     |  9 +++++----
 binread_derive/src/codegen/read_options/struct.rs  | 14 +++++++-------
 binread_derive/src/codegen/sanitization.rs         |  4 ++++
 4 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 9a9f92f..dcc91cd 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -30,9 +30,9 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
         let #POS = #POS_TRAIT::stream_pos(#READER)?;
         (|| {
             #inner
-        })().or_else(|error| {
+        })().or_else(|#ERROR| {
             #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
-            Err(error)
+            Err(#ERROR)
         })
     }
 }
@@ -154,7 +154,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| #MAP_ERROR(#pos, e))
+        .map_err(|#ERROR| #MAP_ERROR(#pos, #ERROR))
     }
 }
 
diff --git a/binread_derive/src/codegen/read_options/debug_template.rs b/binread_derive/src/codegen/read_options/debug_template.rs
index 1e3d4cf..c9b655d 100644
--- a/binread_derive/src/codegen/read_options/debug_template.rs
+++ b/binread_derive/src/codegen/read_options/debug_template.rs
@@ -1,9 +1,10 @@
-use crate::codegen::sanitization::OPT;
+use crate::codegen::sanitization::{ERROR, OPT};
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::Ident;
 
 ident_str! {
+    FORMAT = from_crate!(__private::alloc::format);
     WRITE_COMMENT = from_crate!(binary_template::write_comment);
     WRITE_START_STRUCT = from_crate!(binary_template::write_start_struct);
     WRITE_END_STRUCT = from_crate!(binary_template::write_end_struct);
@@ -23,10 +24,10 @@ pub(super) fn handle_error() -> TokenStream {
     if cfg!(feature = "debug_template") {
         let write_end_struct = end();
         quote! {
-            .map_err(|e| {
-                #WRITE_COMMENT(&format!("Error: {:?}", e));
+            .map_err(|#ERROR| {
+                #WRITE_COMMENT(&#FORMAT!("Error: {:?}", #ERROR));
                 #write_end_struct
-                e
+                #ERROR
             })
         }
     } else {
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 81bd3be..09a33af 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -444,10 +444,10 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let handle_error = debug_template::handle_error();
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
-            let pad = (#pad) as i64;
-            let size = #POS_TRAIT::stream_pos(#READER)#handle_error?.wrapping_sub(#POS) as i64;
-            if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
+            let #PAD = (#pad) as i64;
+            let #SIZE = #POS_TRAIT::stream_pos(#READER)#handle_error?.wrapping_sub(#POS) as i64;
+            if #SIZE < #PAD {
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(#PAD - #SIZE))#handle_error?;
             }
         }}
     });
@@ -501,9 +501,9 @@ fn get_return_type(variant_ident: Option<&Ident>) -> TokenStream {
 fn map_align(align: &TokenStream) -> TokenStream {
     let handle_error = debug_template::handle_error();
     quote! {{
-        let align = (#align) as i64;
-        let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
-        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - (pos % align)) % align))#handle_error?;
+        let #ALIGN = (#align) as i64;
+        let #POS = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
+        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((#ALIGN - (#POS % #ALIGN)) % #ALIGN))#handle_error?;
     }}
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 1c0293f..8dcc409 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -56,6 +56,10 @@ ident_str! {
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
     pub(super) POS = "__binread_generated_position_temp";
+    pub(super) ERROR = "__binread_generated_error";
+    pub(super) PAD = "__binread_generated_pad";
+    pub(super) SIZE = "__binread_generated_size";
+    pub(super) ALIGN = "__binread_generated_align";
     pub(super) ERROR_BASKET = "__binread_generated_error_basket";
 }
 
-- 
2.43.0


From f261729c7cb25a7d3e0f569d3c01097e6554cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 18/19] fix: fields named with raw identifiers compile

---
 binread_derive/src/codegen/sanitization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index 8dcc409..efb4b6f 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -64,7 +64,7 @@ ident_str! {
 }
 
 pub(crate) fn make_ident(ident: &Ident, kind: &str) -> Ident {
-    format_ident!("__binread_generated_{}_{}", kind, ident.to_string())
+    format_ident!("__binread_generated_{}_{}", kind, ident)
 }
 
 /// A string wrapper that converts the str to a $path `TokenStream`, allowing
-- 
2.43.0


From aa4e43ade6f2d2e3a5623905e0627f3c5c6aff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 19/19] fix: types, parameters and variants named R or Args do
 not clash with generated code

---
 binread_derive/src/codegen/mod.rs          | 4 ++--
 binread_derive/src/codegen/sanitization.rs | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/mod.rs b/binread_derive/src/codegen/mod.rs
index 0d8d711..0b42953 100644
--- a/binread_derive/src/codegen/mod.rs
+++ b/binread_derive/src/codegen/mod.rs
@@ -33,8 +33,8 @@ pub(crate) fn generate_impl(
         impl #impl_generics #TRAIT_NAME for #name #ty_generics #where_clause {
             type Args = #arg_type;
 
-            fn read_options<R: #READ_TRAIT + #SEEK_TRAIT>
-                (#READER: &mut R, #OPT: &#OPTIONS, #ARGS: Self::Args)
+            fn read_options<#READER_TYPE: #READ_TRAIT + #SEEK_TRAIT>
+                (#READER: &mut #READER_TYPE, #OPT: &#OPTIONS, #ARGS: <Self as #TRAIT_NAME>::Args)
                 -> #BIN_RESULT<Self>
             {
                 #read_opt_impl
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index efb4b6f..d211cdd 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -44,6 +44,7 @@ ident_str! {
     pub(super) READ_METHOD = from_trait!(read_options);
     pub(super) AFTER_PARSE = from_trait!(after_parse);
     pub(super) READER = "__binread_generated_var_reader";
+    pub(super) READER_TYPE = "__BinreadGeneratedReader";
     pub(super) OPT = "__binread_generated_var_options";
     pub(super) ARGS = "__binread_generated_var_arguments";
     pub(super) SAVED_POSITION = "__binread_generated_saved_position";
-- 
2.43.0

