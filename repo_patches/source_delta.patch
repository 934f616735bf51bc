From 72015c34ca6593cc56a995ee2fdcf2aaec2ffbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 01/23] fix: initialized enum visitor must pass on elements it
 doesn't own

An element naming none of the enum's variants was swallowed once a variant
had been seen, so later flattened fields never got it.
---
 static-xml-derive/src/deserialize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..16fc32c 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -418,13 +418,13 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     let expected_i = match unsafe { self.out.assume_init_mut() } {
                         #(#initialized_match_arms,)*
                     };
-                    if let Some(element_i) = element_i {
+                    if element_i.is_some() {
                         return Err(::static_xml::de::VisitorError::unexpected_element(
                             &name,
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From e7532fc6a921371f0bcc24c66e6aa1ab371e0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 02/23] fix: keep stack in sync when a visitor ignores a
 descendant's error

If an error was raised after a descendant's end tag, its stack entry was
still pending when an ancestor went on skipping: debug builds panicked and
release builds recorded wrong stacks.
---
 static-xml/src/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..c4509d0 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -472,6 +472,10 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             self.depth,
             depth
         );
+
+        // An element may have ended without its parent getting here, if the
+        // parent failed and the error was then ignored further up.
+        self.stack.truncate(self.depth);
         while self.depth > depth {
             self.next()?;
             self.stack.truncate(self.depth);
-- 
2.43.0


From 7cdf94bbde08daa6abfe85a3ec6b261ec82f1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 03/23] fix: don't drop text that is entirely white space

xml-rs reports such text as XmlEvent::Whitespace, which was discarded: a
string field holding only blanks came back empty, and runs of blanks
between CDATA sections or comments vanished.
---
 static-xml/src/de/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index c4509d0..67164b8 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -382,7 +382,7 @@ enum Event {
     EndElement { name: xml::name::OwnedName },
 
     /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// `XmlEvent::Whitespace` (text that happens to be all white space).
     Characters(String),
 }
 
@@ -451,12 +451,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     debug_assert_eq!(&self.stack[self.depth].name, &name);
                     return Ok((Event::EndElement { name }, pos));
                 }
-                Ok(XmlEvent::Characters(str)) | Ok(XmlEvent::CData(str)) => {
+                Ok(XmlEvent::Characters(str))
+                | Ok(XmlEvent::CData(str))
+                | Ok(XmlEvent::Whitespace(str)) => {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
-- 
2.43.0


From a873dfb759858c9c776a4b735067f044d5f90008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 04/23] fix: aliasing violation with more than one flattened
 field

Each flattened field's visitor was handed a reference derived from a fresh
out.as_mut_ptr(), which reborrows the whole struct and thereby invalidates
the references given to earlier flattened fields (and self.out).
---
 static-xml-derive/src/deserialize.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 16fc32c..a3f7b9e 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -69,7 +69,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe {
                                 &mut *(
-                                    ::std::ptr::addr_of_mut!((*out.as_mut_ptr()).#fident)
+                                    ::std::ptr::addr_of_mut!((*out).#fident)
                                     as *mut ::std::mem::MaybeUninit<#ty>
                                 )
                             }
@@ -310,8 +310,12 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             type Out = #ident;
 
             fn new(out: &'out mut ::std::mem::MaybeUninit<Self::Out>) -> Self {
+                // Derive all pointers from a single one. Calling `as_mut_ptr`
+                // again would reborrow all of `out`, invalidating the
+                // references handed out to flattened fields.
+                let out = out.as_mut_ptr();
                 Self {
-                    out: out.as_mut_ptr(),
+                    out,
                     _phantom: ::std::marker::PhantomData,
                     #(#visitor_initializers, )*
                 }
-- 
2.43.0


From ba585dedca4fb6686dbd1b502c786130790414a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 05/23] fix: don't leak already parsed fields when a read fails

Visitors had no drop glue for the values they'd written to the output, so
any error or panic after the first field leaked all fields read so far.
---
 static-xml-derive/src/deserialize.rs | 61 ++++++++++++++++++++++++----
 static-xml/src/de/mod.rs             | 51 +++++++++++++++++++++++
 2 files changed, 103 insertions(+), 9 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index a3f7b9e..25624c1 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -45,7 +45,7 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
                 }),
                 ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. } => {
                     Some(quote_spanned! {span=>
-                        #field_present: bool
+                        #field_present: ::static_xml::de::FieldGuard<#ty>
                     })
                 }
             }
@@ -78,8 +78,12 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                 }
                 _ => {
                     let field_present = format_ident!("{}_present", field.ident);
+                    let fident = field.ident;
                     quote_spanned! {span=>
-                        #field_present: false
+                        #field_present: ::static_xml::de::FieldGuard::new(
+                            // SAFETY: out points to valid, uninitialized memory.
+                            unsafe { ::std::ptr::addr_of_mut!((*out).#fident) }
+                        )
                     }
                 }
             }
@@ -107,9 +111,11 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     }
                 };
                 quote_spanned! {span=>
-                    if !self.#field_present {
+                    if !self.#field_present.is_initialized() {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut as *mut #ty, #value) };
+                        // SAFETY: it's now initialized.
+                        unsafe { self.#field_present.set_initialized() };
                     }
                 }
             }
@@ -123,9 +129,11 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     }
                 };
                 quote_spanned! {span=>
-                    if !self.#field_present {
+                    if !self.#field_present.is_initialized() {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut /*as *mut #ty*/, #value) };
+                        // SAFETY: it's now initialized.
+                        unsafe { self.#field_present.set_initialized() };
                     }
                 }
             }
@@ -136,8 +144,13 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                 } else {
                     quote! { None }
                 };
+                let field_present = format_ident!("{}_present", field.ident);
+                let field_mut = field_mut(field);
                 quote_spanned! {span=>
                     <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(self.#field_visitor, #d)?;
+                    let mut #field_present = ::static_xml::de::FieldGuard::new(#field_mut as *mut #ty);
+                    // SAFETY: finalize's contract guarantees it's now initialized.
+                    unsafe { #field_present.set_initialized() };
                 }
             }
             ElementFieldMode::Text => todo!("text fields unimplemented"),
@@ -145,6 +158,21 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     }).collect()
 }
 
+/// Gives up responsibility for dropping the fields, once all are initialized.
+fn release_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
+    struct_
+        .fields
+        .iter()
+        .map(|field| {
+            let field_present = format_ident!("{}_present", field.ident);
+            match field.mode {
+                ElementFieldMode::Flatten => quote! { #field_present.release(); },
+                _ => quote! { self.#field_present.release(); },
+            }
+        })
+        .collect()
+}
+
 fn attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
         .sorted_attributes
@@ -171,7 +199,7 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", field.ident);
             let field_mut = field_mut(field);
             quote! {
-                Some(#i) if self.#field_present => {
+                Some(#i) if self.#field_present.is_initialized() => {
                     Err(::static_xml::de::VisitorError::duplicate_attribute(name))
                 }
                 Some(#i) => {
@@ -182,7 +210,8 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                             ::static_xml::de::DeserializeAttrField::init(value)?,
                         );
                     }
-                    self.#field_present = true;
+                    // SAFETY: it's now initialized.
+                    unsafe { self.#field_present.set_initialized() };
                     Ok(None)
                 }
             }
@@ -201,7 +230,7 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", &field.ident);
             let field_mut = field_mut(field);
             quote_spanned! {span=>
-                Some(#i) if self.#field_present => {
+                Some(#i) if self.#field_present.is_initialized() => {
                     ::static_xml::de::DeserializeElementField::update(
                         // SAFETY: the field is initialized when field_present is true.
                         unsafe { &mut *#field_mut },
@@ -215,7 +244,7 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                         #field_mut,
                         ::static_xml::de::DeserializeElementField::init(child)?,
                     );
-                    self.#field_present = true;
+                    self.#field_present.set_initialized();
                     Ok(None)
                 }
             }
@@ -234,6 +263,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let visitor_field_definitions = visitor_field_definitions(&struct_);
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
+    let release_fields = release_fields(&struct_);
     let flatten_visitors = quote_flatten_visitors(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
@@ -321,10 +351,13 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 }
             }
 
-            fn finalize(self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            #[allow(unused_mut)]
+            fn finalize(mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
+                // On error, the guards drop those fields which were initialized.
                 #(#finalize_visitor_fields)*
+                #(#release_fields)*
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
                 // finalize_visitor_fields has guaranteed that each field is fully initialized.
                 // The padding doesn't matter. This is similar to this example
@@ -461,10 +494,20 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
+                ::std::mem::forget(self);
                 Ok(())
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                if self.initialized {
+                    // SAFETY: self.out is initialized when self.initialized is true.
+                    unsafe { self.out.assume_init_drop() };
+                }
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 67164b8..4df0e80 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -724,6 +724,57 @@ pub unsafe trait RawDeserializeVisitor<'out>: Sized + ElementVisitor {
     fn finalize(self, default: Option<fn() -> Self::Out>) -> Result<(), VisitorError>;
 }
 
+/// Tracks if a field of a partially initialized struct has been initialized,
+/// dropping it in place if the struct as a whole is never completed.
+///
+/// This is `#[doc(hidden)]` because it's a helper for the macros only.
+#[doc(hidden)]
+pub struct FieldGuard<T> {
+    field: *mut T,
+    initialized: bool,
+}
+
+impl<T> FieldGuard<T> {
+    /// Creates a guard for the uninitialized field at the given location.
+    #[inline]
+    pub fn new(field: *mut T) -> Self {
+        Self {
+            field,
+            initialized: false,
+        }
+    }
+
+    #[inline]
+    pub fn is_initialized(&self) -> bool {
+        self.initialized
+    }
+
+    /// Takes responsibility for dropping the field.
+    ///
+    /// # Safety
+    ///
+    /// The field must be initialized, and must outlive this guard.
+    #[inline]
+    pub unsafe fn set_initialized(&mut self) {
+        self.initialized = true;
+    }
+
+    /// Leaves the value in place.
+    #[inline]
+    pub fn release(self) {
+        std::mem::forget(self);
+    }
+}
+
+impl<T> Drop for FieldGuard<T> {
+    fn drop(&mut self) {
+        if self.initialized {
+            // SAFETY: `set_initialized`'s contract.
+            unsafe { std::ptr::drop_in_place(self.field) };
+        }
+    }
+}
+
 /// Raw, unsafe implementation of [`Deserialize`], for use by the macros.
 ///
 /// With `static-xml-derive`, this can be used via `#[static_xml(flatten)]`.
-- 
2.43.0


From 6505a4f1219cd8280c485ca165be2b277d255ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 06/23] fix: allow flattening derived structs, as documented

Only enums implemented RawDeserialize, which flattened fields require.
---
 static-xml-derive/src/deserialize.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 25624c1..20e39c3 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -277,6 +277,12 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             ::static_xml::de::delegate_element(&mut [#(#flatten_visitors),*], child)
         };
     }
+
+    // #ident and #visitor_type's visibilities must exactly match due to a trait reference cycle:
+    // * #ident refers to #visitor_type via RawDeserialize::Visitor
+    // * #visitor_type refers to #ident via RawDeserializeVisitor::Out
+    let vis = &struct_.input.vis;
+
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
             fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::de::VisitorError> {
@@ -301,7 +307,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
         // a generated field name e.g. `foo__required` or `foo__visitor`. Don't
         // complain about this.
         #[allow(non_snake_case)]
-        struct #visitor_type<'out> {
+        #vis struct #visitor_type<'out> {
             // This can't be &mut MaybeUninit<#type> because flattened fields
             // (if any) get a &mut MaybeUninit<#type> that aliases it. So
             // use a raw pointer and addr_of! to access individual fields, and
@@ -366,6 +372,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
         }
 
+        impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
+            type Visitor = #visitor_type<'out>;
+        }
+
         ::static_xml::impl_deserialize_via_raw!(#ident, #visitor_type);
     }
 }
@@ -430,10 +440,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         })
         .collect();
 
-    // #ident and #visitor_type's visibilities must exactly match due to a trait reference cycle:
-    // * #ident refers to #visitor_type via RawDeserialize::Visitor
-    // * #visitor_type refers to #ident via RawDeserializeVisitor::Out
-    let vis = &enum_.input.vis;
+    let vis = &enum_.input.vis; // as in do_struct.
 
     quote! {
         const ELEMENTS: &[::static_xml::ExpandedNameRef] = &[#(#elements,)*];
-- 
2.43.0


From de23902449e3eb2b8ebec73cd3b70c77ebe57d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 07/23] fix: skipped enum variants: support Deserialize, fail
 on Serialize

As documented, serializing a skipped variant is an error; it silently wrote
nothing instead. Deriving Deserialize produced a non-exhaustive match.
---
 static-xml-derive/src/deserialize.rs | 9 +++++++--
 static-xml-derive/src/serialize.rs   | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 20e39c3..ae9593c 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -388,7 +388,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -417,6 +417,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
@@ -459,7 +464,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
                     // SAFETY: self.out is initialized when self.initialized is true.
-                    let expected_i = match unsafe { self.out.assume_init_mut() } {
+                    let expected_i: usize = match unsafe { self.out.assume_init_mut() } {
                         #(#initialized_match_arms,)*
                     };
                     if element_i.is_some() {
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..3b35283 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -129,7 +129,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(
+                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned(),
+            ))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From 30a592c4ab1828e77c74e97b0b73a93987715876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 08/23] fix: raw identifiers name elements without the r#
 prefix

A field such as r#type used the name r#type in XML.
---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..a4e8e1a 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From 8fd58119a5acaeb9f914238d38e4da5f75411976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 09/23] fix: report reserved namespace prefixes as errors
 rather than panicking

---
 static-xml-derive/src/common.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index a4e8e1a..0c83bd9 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -298,13 +298,19 @@ impl Namespaces {
         with_lit_str(errors, nv, &mut |l| {
             let value = l.value();
             if let Some((prefix_untrimmed, url_untrimmed)) = value.split_once(": ") {
-                if prefix_untrimmed.starts_with("xml") {
-                    let prefix = prefix_untrimmed.trim();
+                let prefix = prefix_untrimmed.trim();
+                if prefix.starts_with("xml") {
                     let url = url_untrimmed.trim();
                     if prefix == "xml" && url == "http://www.w3.org/XML/1998/namespace" {
                         return;
                     }
-                    todo!("unsupported special namespace combo prefix={prefix:?} url={url:?}")
+                    errors.push(syn::Error::new_spanned(
+                        nv,
+                        format!(
+                            "unsupported special namespace combo prefix={prefix:?} url={url:?}"
+                        ),
+                    ));
+                    return;
                 }
                 self.add_internal(errors, nv, prefix_untrimmed.trim(), url_untrimmed);
             } else {
-- 
2.43.0


From 13775e207f02020f18cf1e8eba68631553b8f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 10/23] fix: support text fields in derived structs, as
 documented

derive(Deserialize) panicked and derive(Serialize) silently dropped them.
---
 static-xml-derive/src/deserialize.rs | 30 ++++++++++++++++++++++++----
 static-xml-derive/src/serialize.rs   | 16 +++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index ae9593c..65e9c3f 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -39,7 +39,6 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_visitor = format_ident!("{}_visitor", field.ident);
             let ty = &field.inner.ty;
             match field.mode {
-                ElementFieldMode::Text => None,
                 ElementFieldMode::Flatten => Some(quote_spanned! {span=>
                     #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor
                 }),
@@ -48,6 +47,10 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
                         #field_present: ::static_xml::de::FieldGuard<#ty>
                     })
                 }
+                ElementFieldMode::Text => Some(quote_spanned! {span=>
+                    #field_present: ::static_xml::de::FieldGuard<#ty>,
+                    _text_buf: ::std::string::String
+                }),
             }
         })
         .collect()
@@ -79,11 +82,13 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                 _ => {
                     let field_present = format_ident!("{}_present", field.ident);
                     let fident = field.ident;
+                    let text_buf = matches!(field.mode, ElementFieldMode::Text)
+                        .then(|| quote! { , _text_buf: ::std::string::String::new() });
                     quote_spanned! {span=>
                         #field_present: ::static_xml::de::FieldGuard::new(
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe { ::std::ptr::addr_of_mut!((*out).#fident) }
-                        )
+                        ) #text_buf
                     }
                 }
             }
@@ -153,7 +158,24 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     unsafe { #field_present.set_initialized() };
                 }
             }
-            ElementFieldMode::Text => todo!("text fields unimplemented"),
+            ElementFieldMode::Text => {
+                let field_present = format_ident!("{}_present", field.ident);
+                let field_mut = field_mut(field);
+                let value = quote_spanned! {span=>
+                    <#ty as ::static_xml::de::ParseText>::parse(::std::mem::take(&mut self._text_buf))
+                        .map_err(::static_xml::de::VisitorError::Wrap)?
+                };
+                let value = match default {
+                    Some(d) => quote! { if self._text_buf.is_empty() { #d() } else { #value } },
+                    None => value,
+                };
+                quote_spanned! {span=>
+                    // SAFETY: #field_mut is a valid pointer to uninitialized memory.
+                    unsafe { ::std::ptr::write(#field_mut as *mut #ty, #value) };
+                    // SAFETY: it's now initialized.
+                    unsafe { self.#field_present.set_initialized() };
+                }
+            }
         }
     }).collect()
 }
@@ -285,7 +307,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
 
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
-            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::de::VisitorError> {
+            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
                 self._text_buf.push_str(&s);
                 Ok(None)
             }
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3b35283..c6144b4 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -47,7 +47,15 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
     attrs.chain(flattens).collect()
 }
 
-fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
+fn write_struct_children(struct_: &ElementStruct) -> Vec<TokenStream> {
+    // Text first: once there's text, xml-rs won't add indentation to it.
+    let text = struct_.text_field_pos.map(|p| {
+        let ident = &struct_.fields[p].inner.ident;
+        quote_spanned! {
+            ident.span() =>
+            writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
+        }
+    });
     let elements = struct_.fields.iter().filter_map(|f| {
         if !matches!(f.mode, ElementFieldMode::Element { .. }) {
             return None;
@@ -69,7 +77,7 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
             ::static_xml::ser::Serialize::write_children(&self.#ident, writer)?;
         })
     });
-    elements.chain(flattens).collect()
+    text.into_iter().chain(elements).chain(flattens).collect()
 }
 
 fn impl_root(name: &Name) -> TokenStream {
@@ -88,7 +96,7 @@ fn do_struct(_errors: &Errors, struct_: &ElementStruct) -> TokenStream {
     let ident = &struct_.input.ident;
     let write_namespaces = write_namespaces(&struct_.attr);
     let write_attributes = write_struct_attributes(struct_);
-    let write_elements = write_struct_elements(struct_);
+    let write_children = write_struct_children(struct_);
     let impl_root = impl_root(&struct_.attr.name);
     quote! {
         impl ::static_xml::ser::Serialize for #ident {
@@ -99,7 +107,7 @@ fn do_struct(_errors: &Errors, struct_: &ElementStruct) -> TokenStream {
             }
 
             fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> Result<(), ::static_xml::ser::Error> {
-                #(#write_elements)*
+                #(#write_children)*
                 Ok(())
             }
         }
-- 
2.43.0


From 805ea25345d9abde09cd04d50bd7c7b791c628e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 11/23] fix: serialized names must resolve to the requested
 namespace

xml-rs doesn't write a declaration when a prefix is reassigned and later
assigned back, nor escape URLs; declare prefixes ourselves instead. Also
write xmlns="" where an element without a namespace occurs below a default
namespace, which panicked or put the element into that namespace, and allow
adding an attribute before its namespace.
---
 static-xml/src/ser/mod.rs | 91 ++++++++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 20 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 16bddd7..6e54d9f 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -113,6 +113,9 @@ struct ElementBuilderInner<'a> {
     /// it part of the key.
     attributes: Vec<(ExpandedNameRef<'a>, String)>,
     seen_attributes: HashMap<ExpandedNameRef<'a>, ()>,
+
+    /// The prefix to URL mappings in scope where the element starts.
+    in_scope: xml::namespace::Namespace,
     writer: &'a mut dyn ErasedEventWriter,
 }
 
@@ -159,8 +162,18 @@ impl<'a> ElementBuilder<'a> {
     /// is dropped, serialization will fail.
     #[must_use = "must call finish on the returned writer to complete the document"]
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
-        let inner = self.0.take().unwrap();
-        let namespaces = inner.namespaces.finalize();
+        let mut inner = self.0.take().unwrap();
+        for (name, _) in &inner.attributes {
+            // Again, because the namespace might have been added after the attribute.
+            inner.namespaces.attribute(name.namespace);
+        }
+        let namespaces = inner.namespaces.finalize(&inner.name);
+
+        // xml-rs could write the declarations itself, but it only does so
+        // properly for prefixes which aren't reassigned within the document,
+        // and it doesn't escape URLs.
+        let mut in_scope = inner.in_scope;
+        let declarations = namespaces.declare(&inner.name, &mut in_scope);
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -168,21 +181,33 @@ impl<'a> ElementBuilder<'a> {
 
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
-                    inner
-                        .attributes
+                    declarations
                         .iter()
-                        .map(|(k, v)| xml::attribute::Attribute {
-                            name: namespaces.resolve_attribute(k),
-                            value: &v,
+                        .map(|(prefix, url)| xml::attribute::Attribute {
+                            name: match *prefix {
+                                "" => xml::name::Name::local("xmlns"),
+                                p => xml::name::Name::prefixed(p, "xmlns"),
+                            },
+                            value: url,
                         })
+                        .chain(
+                            inner
+                                .attributes
+                                .iter()
+                                .map(|(k, v)| xml::attribute::Attribute {
+                                    name: namespaces.resolve_attribute(k),
+                                    value: &v,
+                                }),
+                        )
                         .collect::<Vec<_>>(),
                 ),
 
-                namespace: Cow::Borrowed(&namespaces.by_prefix),
+                namespace: Cow::Owned(xml::namespace::Namespace::empty()),
             })
             .map_err(|e| Error(e.to_string()))?;
         Ok(ElementWriter(Some(ElementWriterInner {
             namespaces,
+            in_scope,
             writer: inner.writer,
         })))
     }
@@ -203,6 +228,9 @@ pub struct ElementWriter<'a>(Option<ElementWriterInner<'a>>);
 
 struct ElementWriterInner<'a> {
     namespaces: Namespaces<'a>,
+
+    /// The prefix to URL mappings in scope within the element.
+    in_scope: xml::namespace::Namespace,
     writer: &'a mut dyn ErasedEventWriter,
 }
 
@@ -222,6 +250,7 @@ impl<'a> ElementWriter<'a> {
             namespaces: inner.namespaces.child(name.namespace),
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
+            in_scope: inner.in_scope.clone(),
             writer: inner.writer,
         }))
     }
@@ -273,6 +302,9 @@ impl<'a> NamespacesBuilder<'a> {
             "prefix {:?} must not start with xml",
             requested_prefix
         );
+        if url.is_empty() || url == crate::XML_NS {
+            return; // these are usable without declaration and can't have any other prefix.
+        }
         use std::collections::btree_map::Entry;
         match self.0.entry(url) {
             Entry::Vacant(e) => {
@@ -304,7 +336,9 @@ impl<'a> NamespacesBuilder<'a> {
     }
 
     /// Finalizes the chosen prefixes, returning an immutable `Namespaces`.
-    fn finalize(mut self) -> Namespaces<'a> {
+    fn finalize(mut self, element: &ExpandedNameRef) -> Namespaces<'a> {
+        // There must be no default namespace if the element itself has none.
+        let default_available = !element.namespace.is_empty();
         let mut by_prefix = xml::namespace::Namespace::empty();
 
         // Give first dibs to required mappings, and ensure they get some
@@ -316,7 +350,7 @@ impl<'a> NamespacesBuilder<'a> {
                 continue;
             }
 
-            if !(ns.needs_prefix && ns.requested_prefix.is_empty())
+            if !((ns.needs_prefix || !default_available) && ns.requested_prefix.is_empty())
                 && by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned())
             {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
@@ -338,6 +372,9 @@ impl<'a> NamespacesBuilder<'a> {
             if ns.required {
                 continue; // already processed.
             }
+            if ns.requested_prefix.is_empty() && !default_available {
+                continue;
+            }
 
             if by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned()) {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
@@ -382,6 +419,28 @@ impl<'a> Namespaces<'a> {
         child
     }
 
+    /// Updates `in_scope` from the parent's mappings to the given element's,
+    /// returning the `(prefix, url)` declarations which accomplish this.
+    fn declare<'b>(
+        &'b self,
+        element: &ExpandedNameRef,
+        in_scope: &mut xml::namespace::Namespace,
+    ) -> Vec<(&'b str, &'b str)> {
+        let mut declarations = Vec::new();
+        if element.namespace.is_empty() && in_scope.get("").map_or(false, |u| !u.is_empty()) {
+            declarations.push(("", ""));
+        }
+        declarations.extend(
+            (&self.by_prefix)
+                .into_iter()
+                .filter(|&(prefix, url)| in_scope.get(prefix) != Some(url)),
+        );
+        for (prefix, url) in &declarations {
+            in_scope.force_put(*prefix, *url);
+        }
+        declarations
+    }
+
     fn resolve_element<'b>(&'b self, name: &ExpandedNameRef<'b>) -> xml::name::Name<'b>
     where
         'a: 'b,
@@ -393,16 +452,7 @@ impl<'a> Namespaces<'a> {
                 ..
             }) => p,
             None if name.namespace == "http://www.w3.org/XML/1998/namespace" => "xml",
-            _ if name.namespace.is_empty() => {
-                if self.by_prefix.get("").is_none() {
-                    ""
-                } else {
-                    todo!(
-                        "element {} has no namespace, but default namespace is set",
-                        name
-                    )
-                }
-            }
+            _ if name.namespace.is_empty() => "",
             _ => panic!("element {} uses undeclared namespace", name),
         };
         xml::name::Name {
@@ -708,6 +758,7 @@ impl<'a> Serializer<'a> {
             namespaces: NamespacesBuilder::default(),
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
+            in_scope: xml::namespace::Namespace::empty(),
             writer: &mut writer,
         }));
         self.element.write_attributes(&mut builder)?;
-- 
2.43.0


From 778c0063548a9ba7eae950c7e9f45d55a2b8793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 12/23] fix: escape everything that must be, reject what XML
 can't represent

xml-rs writes ]]> and control characters verbatim, producing documents
which aren't well-formed, and doesn't protect carriage returns or tabs from
a parser's normalization.
---
 static-xml/src/ser/mod.rs | 69 ++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 6e54d9f..32ef11f 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -96,6 +96,37 @@ impl<W: Write> ErasedEventWriter for WrappedWriter<W> {
     }
 }
 
+/// Escapes an attribute value or character data.
+///
+/// xml-rs's own escaping lets through `]]>`, white space which parsers are
+/// required to normalize, and characters which aren't allowed in XML at all.
+fn escape(s: &str, attribute: bool) -> Result<Cow<'_, str>, Error> {
+    let mut out = String::new();
+    let mut copied = 0;
+    for (i, c) in s.char_indices() {
+        let escaped = match c {
+            '<' => "&lt;",
+            '>' => "&gt;",
+            '&' => "&amp;",
+            '\r' => "&#xD;",
+            '"' if attribute => "&quot;",
+            '\'' if attribute => "&apos;",
+            '\n' if attribute => "&#xA;",
+            '\t' if attribute => "&#x9;",
+            '\t' | '\n' | '\u{20}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}' => continue,
+            _ => return Err(Error(format!("XML can't represent character {:?}", c))),
+        };
+        out.push_str(&s[copied..i]);
+        out.push_str(escaped);
+        copied = i + c.len_utf8();
+    }
+    if copied == 0 {
+        return Ok(Cow::Borrowed(s));
+    }
+    out.push_str(&s[copied..]);
+    Ok(Cow::Owned(out))
+}
+
 /// Builds the start tag for an element: name, namespace mappings, and attributes.
 ///
 /// The element's parent always constructs it with its namespace, local name, and
@@ -174,6 +205,16 @@ impl<'a> ElementBuilder<'a> {
         // and it doesn't escape URLs.
         let mut in_scope = inner.in_scope;
         let declarations = namespaces.declare(&inner.name, &mut in_scope);
+        let values = declarations
+            .iter()
+            .map(|(_, url)| *url)
+            .chain(inner.attributes.iter().map(|(_, v)| v.as_str()))
+            .map(|v| escape(v, true))
+            .collect::<Result<Vec<_>, Error>>()
+            .map_err(|e| {
+                inner.writer.poison(e.clone());
+                e
+            })?;
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -183,22 +224,18 @@ impl<'a> ElementBuilder<'a> {
                 attributes: Cow::Owned(
                     declarations
                         .iter()
-                        .map(|(prefix, url)| xml::attribute::Attribute {
-                            name: match *prefix {
-                                "" => xml::name::Name::local("xmlns"),
-                                p => xml::name::Name::prefixed(p, "xmlns"),
-                            },
-                            value: url,
+                        .map(|(prefix, _)| match *prefix {
+                            "" => xml::name::Name::local("xmlns"),
+                            p => xml::name::Name::prefixed(p, "xmlns"),
                         })
                         .chain(
                             inner
                                 .attributes
                                 .iter()
-                                .map(|(k, v)| xml::attribute::Attribute {
-                                    name: namespaces.resolve_attribute(k),
-                                    value: &v,
-                                }),
+                                .map(|(k, _)| namespaces.resolve_attribute(k)),
                         )
+                        .zip(&values)
+                        .map(|(name, value)| xml::attribute::Attribute { name, value })
                         .collect::<Vec<_>>(),
                 ),
 
@@ -256,11 +293,12 @@ impl<'a> ElementWriter<'a> {
     }
 
     pub fn text(&mut self, text: &str) -> Result<(), Error> {
-        self.0
-            .as_mut()
-            .unwrap()
-            .writer
-            .write(XmlEvent::Characters(text))
+        let inner = self.0.as_mut().unwrap();
+        let text = escape(text, false).map_err(|e| {
+            inner.writer.poison(e.clone());
+            e
+        })?;
+        inner.writer.write(XmlEvent::Characters(&text))
     }
 
     pub fn finish(mut self) -> Result<(), Error> {
@@ -748,6 +786,7 @@ impl<'a> Serializer<'a> {
                 xml::writer::EmitterConfig {
                     perform_indent: self.perform_indent,
                     write_document_declaration: self.write_document_declaration,
+                    perform_escaping: false, // see escape.
                     ..Default::default()
                 },
             ),
-- 
2.43.0


From 57e46642374a0afff9dbb1890338fed8b83ccc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 13/23] fix: accept processing instructions before the root
 without a declaration

---
 static-xml/src/de/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 4df0e80..d0f2ca2 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -305,14 +305,20 @@ impl<R: std::io::Read> Reader<R> {
     ///
     /// Call only once.
     pub fn root(&mut self) -> Result<ElementReader<'_>, Error> {
-        match self.inner.next().map_err(|e| Error::xml(&[], e))? {
-            XmlEvent::StartDocument { .. } => {}
-            o => {
-                return Err(Error::msg(
-                    &[],
-                    self.inner.position(),
-                    format!("expected StartDocument, got {:#?}", o),
-                ))
+        loop {
+            match self.inner.next().map_err(|e| Error::xml(&[], e))? {
+                XmlEvent::StartDocument { .. } => break,
+
+                // Without a document declaration, xml-rs returns leading
+                // processing instructions before its `StartDocument`.
+                XmlEvent::ProcessingInstruction { .. } | XmlEvent::Comment { .. } => {}
+                o => {
+                    return Err(Error::msg(
+                        &[],
+                        self.inner.position(),
+                        format!("expected StartDocument, got {:#?}", o),
+                    ))
+                }
             }
         }
         match self.next()? {
-- 
2.43.0


From 9709a30987da46451a113a03b6bae5b4a59f7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:50 +0000
Subject: [PATCH 14/23] fix: report definitions syn can't parse as errors, not
 panics

The early return of parse_macro_input dropped Errors unchecked.
---
 static-xml-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/lib.rs b/static-xml-derive/src/lib.rs
index 2a2f4f3..dc61796 100644
--- a/static-xml-derive/src/lib.rs
+++ b/static-xml-derive/src/lib.rs
@@ -19,8 +19,9 @@ fn derive(
     input: proc_macro::TokenStream,
     f: fn(&Errors, syn::DeriveInput) -> Result<proc_macro2::TokenStream, ()>,
 ) -> proc_macro::TokenStream {
-    let errors = Errors::new();
+    // This returns on error, so it must precede `Errors::new`.
     let input = parse_macro_input!(input as DeriveInput);
+    let errors = Errors::new();
     let out = f(&errors, input).unwrap_or_default();
     let errors = errors.take_compile_errors();
     proc_macro::TokenStream::from(quote! {
-- 
2.43.0


From 27e147682701be157d28fbea796a9020a06e2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 15/23] fix: report attributes where they aren't understood
 rather than ignoring them

That is within variants' fields, next to skip, and within types with mode = "std".
---
 static-xml-derive/src/common.rs  | 49 +++++++++++++++++++++++++++-----
 static-xml-derive/src/parse.rs   |  3 +-
 static-xml-derive/src/to_text.rs |  3 +-
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 0c83bd9..7ad101f 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -154,6 +154,7 @@ impl<'a> TextEnum<'a> {
             .map(|(i, v)| {
                 let mut text = None;
                 let mut unknown = false;
+                reject_field_items(errors, &v.fields);
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::Path(p)) if p.is_ident("unknown") => unknown = true,
@@ -213,9 +214,8 @@ impl<'a> TextEnum<'a> {
             .variants
             .iter()
             .filter_map(|v| {
-                for i in get_meta_items(errors, &v.attrs) {
-                    errors.push(syn::Error::new_spanned(i, "item not understood"));
-                }
+                reject_items(errors, &v.attrs);
+                reject_field_items(errors, &v.fields);
                 match single_unnamed_field(&v.fields) {
                     None => {
                         errors.push(syn::Error::new_spanned(
@@ -519,6 +519,38 @@ pub(crate) fn get_meta_items<'a>(errors: &Errors, attrs: &[syn::Attribute]) -> V
     out
 }
 
+/// Reports all `#[static_xml(...)]` items, where none are supported.
+pub(crate) fn reject_items(errors: &Errors, attrs: &[syn::Attribute]) {
+    for i in get_meta_items(errors, attrs) {
+        errors.push(syn::Error::new_spanned(i, "item not understood"));
+    }
+}
+
+/// Like `reject_items`, for each of the given fields.
+pub(crate) fn reject_field_items(errors: &Errors, fields: &Fields) {
+    for f in fields {
+        reject_items(errors, &f.attrs);
+    }
+}
+
+/// Like `reject_items`, for everything within a type.
+pub(crate) fn reject_inner_items(errors: &Errors, data: &syn::Data) {
+    match data {
+        syn::Data::Struct(s) => reject_field_items(errors, &s.fields),
+        syn::Data::Enum(e) => {
+            for v in &e.variants {
+                reject_items(errors, &v.attrs);
+                reject_field_items(errors, &v.fields);
+            }
+        }
+        syn::Data::Union(u) => {
+            for f in &u.fields.named {
+                reject_items(errors, &f.attrs);
+            }
+        }
+    }
+}
+
 /// Mode for a field within an `ElementStruct`.
 #[derive(Copy, Clone, Debug)]
 pub(crate) enum ElementFieldMode {
@@ -628,6 +660,8 @@ impl<'a> ElementEnum<'a> {
             .iter()
             .filter_map(|v| {
                 let mut name = Name::from_ident(&v.ident);
+                let mut skip = false;
+                reject_field_items(errors, &v.fields);
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
@@ -640,13 +674,14 @@ impl<'a> ElementEnum<'a> {
                         {
                             attr.namespaces.process_prefix(errors, nv, &mut name);
                         }
-                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => {
-                            has_skipped_variants = true;
-                            return None;
-                        }
+                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => skip = true,
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
                 }
+                if skip {
+                    has_skipped_variants = true;
+                    return None;
+                }
                 let ty = optional_unnamed_field(errors, &v.ident, &v.fields)
                     .ok()?
                     .map(|f| &f.ty);
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index b689a5c..2636498 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -9,7 +9,7 @@ use static_xml::de::WhiteSpace;
 use syn::Data;
 
 use crate::common::{
-    Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
+    reject_inner_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
     UnionVariant,
 };
 
@@ -131,6 +131,7 @@ pub(crate) fn derive(errors: &Errors, input: syn::DeriveInput) -> Result<TokenSt
             return Err(());
         }
         Some(TextMode::Std) => {
+            reject_inner_items(errors, &input.data);
             return Ok(do_std(&input.ident, &attr));
         }
         _ => {}
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index b2a5bad..90c53ad 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -6,7 +6,7 @@ use quote::{quote, quote_spanned};
 use syn::Data;
 
 use crate::common::{
-    Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
+    reject_inner_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
     UnionVariant,
 };
 
@@ -87,6 +87,7 @@ pub(crate) fn derive(errors: &Errors, input: syn::DeriveInput) -> Result<TokenSt
             return Err(());
         }
         Some(TextMode::Std) => {
+            reject_inner_items(errors, &input.data);
             return Ok(do_std(&input.ident));
         }
         _ => {}
-- 
2.43.0


From 075868f710479a2d5ba9521eeedbd84426d3f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 16/23] fix: support restrictions without variants when
 deriving ToText, as documented

---
 static-xml-derive/src/to_text.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index 90c53ad..8d2f757 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -54,13 +54,17 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
         })
         .collect();
     let ident = &enum_.input.ident;
+    // Without variants, there are no values, but references count as inhabited.
+    let value = if variants.is_empty() {
+        quote! { match *self {} }
+    } else {
+        quote! { Ok(match self { #(#match_arms, )* }.to_owned()) }
+    };
     quote_spanned! {
         ident.span() =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                Ok(match self {
-                    #(#match_arms, )*
-                }.to_owned())
+                #value
             }
         }
     }
-- 
2.43.0


From f9e3d3d106872dd9c3e2b3597b599e1435ebb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 17/23] fix: no live reference to a choice while its parent's
 guard drops it

The guards that drop initialized fields when finalize fails (ba585de) drop
flattened choices too, while their visitors' &mut is protected as part of
finalize's argument. Use a raw pointer, as in the visitors of structs.
---
 static-xml-derive/src/deserialize.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 65e9c3f..4e9030d 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -473,7 +473,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         const ELEMENTS: &[::static_xml::ExpandedNameRef] = &[#(#elements,)*];
 
         #vis struct #visitor_type<'out> {
-            out: &'out mut ::std::mem::MaybeUninit<#ident>,
+            // This can't be &mut MaybeUninit<#ident>: when the value is a
+            // flattened field, the parent's guard may drop it while a
+            // visitor's `finalize`, which took this by value, is running.
+            out: *mut #ident,
+            _phantom: ::std::marker::PhantomData<&'out mut #ident>,
             initialized: bool,
         }
 
@@ -486,7 +490,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
                     // SAFETY: self.out is initialized when self.initialized is true.
-                    let expected_i: usize = match unsafe { self.out.assume_init_mut() } {
+                    let expected_i: usize = match unsafe { &mut *self.out } {
                         #(#initialized_match_arms,)*
                     };
                     if element_i.is_some() {
@@ -497,10 +501,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     }
                     return Ok(Some(child));
                 }
-                self.out.write(match element_i {
+                let value = match element_i {
                     #(#uninitialized_match_arms,)*
                     _ => return Ok(Some(child)),
-                });
+                };
+                // SAFETY: self.out is a valid pointer to uninitialized memory.
+                unsafe { ::std::ptr::write(self.out, value) };
                 self.initialized = true;
                 Ok(None)
             }
@@ -511,7 +517,8 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
 
             fn new(out: &'out mut ::std::mem::MaybeUninit<Self::Out>) -> Self {
                 Self {
-                    out,
+                    out: out.as_mut_ptr(),
+                    _phantom: ::std::marker::PhantomData,
                     initialized: false,
                 }
             }
@@ -522,7 +529,9 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             ) -> Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
                     if let Some(d) = default {
-                        self.out.write(d());
+                        let value = d();
+                        // SAFETY: self.out is a valid pointer to uninitialized memory.
+                        unsafe { ::std::ptr::write(self.out, value) };
                     } else {
                         return Err(static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
                     }
@@ -537,7 +546,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             fn drop(&mut self) {
                 if self.initialized {
                     // SAFETY: self.out is initialized when self.initialized is true.
-                    unsafe { self.out.assume_init_drop() };
+                    unsafe { ::std::ptr::drop_in_place(self.out) };
                 }
             }
         }
-- 
2.43.0


From 291ec338e06904ecc4e7c417343edf34e3c56bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 18/23] fix: sort choice alternatives by the name they are
 looked up by

An explicitly empty namespace, as by default_namespace = "", and no namespace
at all denote the same names, but sorted differently.
---
 static-xml-derive/src/common.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 7ad101f..1021f53 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -692,12 +692,7 @@ impl<'a> ElementEnum<'a> {
                 })
             })
             .collect();
-        variants.sort_by(|a, b| {
-            a.name
-                .namespace
-                .cmp(&b.name.namespace)
-                .then_with(|| a.name.local_name.cmp(&b.name.local_name))
-        });
+        variants.sort_by(|a, b| a.name.expanded().cmp(&b.name.expanded()));
         ElementEnum {
             input,
             attr,
-- 
2.43.0


From 820fe9402d9e5dc9372cee0d1ea2ecee27a9dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 19/23] fix: give derived code the macro's hygiene, not that of
 the names it uses

Derives failed to compile for definitions made by macro_rules! macros which
are passed names, and Deserialize's in crates with forbid(unsafe_code).
---
 static-xml-derive/src/common.rs      | 13 ++++++++--
 static-xml-derive/src/deserialize.rs | 39 +++++++++++++++++-----------
 static-xml-derive/src/parse.rs       |  8 +++---
 static-xml-derive/src/serialize.rs   | 18 +++++++------
 static-xml-derive/src/to_text.rs     | 12 ++++-----
 5 files changed, 55 insertions(+), 35 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 1021f53..a7d6082 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -3,13 +3,22 @@
 
 use std::{cell::RefCell, collections::BTreeMap};
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
 use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
+/// Returns a span with the given location for generated code.
+///
+/// The code must not take on the original's hygiene: a field's name may come from another macro,
+/// where e.g. `self` isn't what it is in the rest of the generated code. Also, lints such as
+/// `unsafe_code` apply to code which looks like the user's own.
+pub(crate) fn located(span: Span) -> Span {
+    span.resolved_at(Span::call_site())
+}
+
 /// Accumulates compiler errors. Similar to `serde_derive`'s `Ctxt`.
 pub(crate) struct Errors(RefCell<Option<Vec<syn::Error>>>);
 
@@ -284,7 +293,7 @@ impl<'a> Name<'a> {
         let namespace = self.namespace.as_deref().unwrap_or("");
         let local_name = self.local_name.as_str();
         quote_spanned! {
-            self.ident.span() =>
+            located(self.ident.span()) =>
             ::static_xml::ExpandedNameRef {
                 local_name: #local_name,
                 namespace: #namespace,
diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 4e9030d..fa19099 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -7,7 +7,9 @@ use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
 use syn::{spanned::Spanned, Data};
 
-use crate::common::{ElementEnum, ElementField, ElementFieldMode, ElementStruct, Errors};
+use crate::common::{
+    located, ElementEnum, ElementField, ElementFieldMode, ElementStruct, Errors,
+};
 
 pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
@@ -16,7 +18,7 @@ pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream
         .filter_map(|f| {
             if matches!(f.mode, ElementFieldMode::Flatten) {
                 let field_visitor = format_ident!("{}_visitor", f.ident);
-                Some(quote_spanned! { f.inner.ident.span() => &mut self.#field_visitor })
+                Some(quote_spanned! { located(f.inner.ident.span()) => &mut self.#field_visitor })
             } else {
                 None
             }
@@ -34,7 +36,7 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
         .fields
         .iter()
         .filter_map(|field| {
-            let span = field.inner.span();
+            let span = located(field.inner.span());
             let field_present = format_ident!("{}_present", field.ident);
             let field_visitor = format_ident!("{}_visitor", field.ident);
             let ty = &field.inner.ty;
@@ -61,7 +63,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
         .fields
         .iter()
         .map(|field| {
-            let span = field.inner.span();
+            let span = located(field.inner.span());
             match field.mode {
                 ElementFieldMode::Flatten => {
                     let field_visitor = format_ident!("{}_visitor", field.ident);
@@ -98,7 +100,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
 
 fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_.fields.iter().map(|field| {
-        let span = field.inner.span();
+        let span = located(field.inner.span());
         let ty = &field.inner.ty;
         let default = field.default.then(|| {
             quote_spanned! {span=>
@@ -248,23 +250,30 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
         .enumerate()
         .map(|(i, &p)| {
             let field = &struct_.fields[p];
-            let span = field.inner.span();
+            let span = located(field.inner.span());
             let field_present = format_ident!("{}_present", &field.ident);
             let field_mut = field_mut(field);
+            // If the type isn't suitable, this is said to be about the field rather than the macro.
+            let child = quote! { child };
+            // SAFETY: the field is initialized when field_present is true.
+            let current = quote! { let current = unsafe { &mut *#field_mut }; current };
+            let user_span = field.inner.span();
+            let update = quote_spanned! {user_span=>
+                ::static_xml::de::DeserializeElementField::update({ #current }, #child)?
+            };
+            let init = quote_spanned! {user_span=>
+                ::static_xml::de::DeserializeElementField::init(#child)?
+            };
             quote_spanned! {span=>
                 Some(#i) if self.#field_present.is_initialized() => {
-                    ::static_xml::de::DeserializeElementField::update(
-                        // SAFETY: the field is initialized when field_present is true.
-                        unsafe { &mut *#field_mut },
-                        child,
-                    )?;
+                    #update;
                     Ok(None)
                 }
                 Some(#i) => unsafe {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     ::std::ptr::write(
                         #field_mut,
-                        ::static_xml::de::DeserializeElementField::init(child)?,
+                        #init,
                     );
                     self.#field_present.set_initialized();
                     Ok(None)
@@ -416,7 +425,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .enumerate()
         .map(|(i, v)| {
             let vident = v.ident;
-            let span = vident.span();
+            let span = located(vident.span());
 
             match v.ty {
                 None => {
@@ -453,12 +462,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {
-                        vident.span() => Some(#i) => { #ident::#vident }
+                        located(vident.span()) => Some(#i) => { #ident::#vident }
                     }
                 }
                 Some(_) => {
                     quote_spanned! {
-                        vident.span() => Some(#i) => {
+                        located(vident.span()) => Some(#i) => {
                             #ident::#vident(::static_xml::de::DeserializeElementField::init(child)?)
                         }
                     }
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index 2636498..fb9032f 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -9,7 +9,7 @@ use static_xml::de::WhiteSpace;
 use syn::Data;
 
 use crate::common::{
-    reject_inner_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
+    located, reject_inner_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
     UnionVariant,
 };
 
@@ -37,7 +37,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
             let ident = &v.inner.ident;
             let ty = &v.ty;
             quote_spanned! {
-                ident.span() =>
+                located(ident.span()) =>
                 match <#ty as ::static_xml::de::ParseText>::parse(text.clone()) {
                     Ok(r) => return Ok(Self::#ident(r)),
                     Err(e) => errors.push(e),
@@ -71,12 +71,12 @@ fn do_restriction(
                 TextVariantMode::Unknown => return None,
             };
             let ident = &v.inner.ident;
-            Some(quote_spanned! { ident.span() => #text => Ok(Self::#ident) })
+            Some(quote_spanned! { located(ident.span()) => #text => Ok(Self::#ident) })
         })
         .collect();
     let fallthrough = if let Some(i) = unknown_variant {
         let vident = &variants[i].inner.ident;
-        quote_spanned! { vident.span() => _ => Ok(Self::#vident(text)) }
+        quote_spanned! { located(vident.span()) => _ => Ok(Self::#vident(text)) }
     } else {
         quote! { t => Err(::static_xml::de::no_such_variant(stringify!(#ident), t)) }
     };
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index c6144b4..16a1cae 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -7,7 +7,9 @@ use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use syn::{spanned::Spanned, Data};
 
-use crate::common::{ElementAttr, ElementEnum, ElementFieldMode, ElementStruct, Errors, Name};
+use crate::common::{
+    located, ElementAttr, ElementEnum, ElementFieldMode, ElementStruct, Errors, Name,
+};
 
 fn write_namespaces(attr: &ElementAttr) -> Vec<TokenStream> {
     attr.namespaces
@@ -30,7 +32,7 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
         let ident = &f.inner.ident;
         let name = f.name.quote_expanded();
         Some(quote_spanned! {
-            ident.span() =>
+            located(ident.span()) =>
             ::static_xml::ser::SerializeAttr::write(&self.#ident, &mut builder, #name)?;
         })
     });
@@ -40,7 +42,7 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
         }
         let ident = &f.inner.ident;
         Some(quote_spanned! {
-            ident.span() =>
+            located(ident.span()) =>
             ::static_xml::ser::Serialize::write_attributes(&self.#ident, builder)?;
         })
     });
@@ -52,7 +54,7 @@ fn write_struct_children(struct_: &ElementStruct) -> Vec<TokenStream> {
     let text = struct_.text_field_pos.map(|p| {
         let ident = &struct_.fields[p].inner.ident;
         quote_spanned! {
-            ident.span() =>
+            located(ident.span()) =>
             writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
         }
     });
@@ -63,7 +65,7 @@ fn write_struct_children(struct_: &ElementStruct) -> Vec<TokenStream> {
         let ident = &f.inner.ident;
         let name = f.name.quote_expanded();
         Some(quote_spanned! {
-            ident.span() =>
+            located(ident.span()) =>
             ::static_xml::ser::SerializeField::write(&self.#ident, writer, #name)?;
         })
     });
@@ -73,7 +75,7 @@ fn write_struct_children(struct_: &ElementStruct) -> Vec<TokenStream> {
         }
         let ident = &f.inner.ident;
         Some(quote_spanned! {
-            ident.span() =>
+            located(ident.span()) =>
             ::static_xml::ser::Serialize::write_children(&self.#ident, writer)?;
         })
     });
@@ -123,13 +125,13 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
         match v.ty {
             None => {
                 quote_spanned! {
-                    vident.span() =>
+                    located(vident.span()) =>
                     Self::#vident => writer.element(#name).start()?.finish()?
                 }
             },
             Some(_) => {
                 quote_spanned! {
-                    vident.span() =>
+                    located(vident.span()) =>
                     Self::#vident(ref f) => ::static_xml::ser::SerializeField::write(f, writer, #name)?
                 }
             }
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index 8d2f757..bf1a4d9 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -6,7 +6,7 @@ use quote::{quote, quote_spanned};
 use syn::Data;
 
 use crate::common::{
-    reject_inner_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
+    located, reject_inner_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
     UnionVariant,
 };
 
@@ -22,12 +22,12 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
         .iter()
         .map(|v| {
             let vident = &v.inner.ident;
-            quote_spanned! { vident.span() => Self::#vident(ref f) => ::static_xml::ser::ToText::to_text(f) }
+            quote_spanned! { located(vident.span()) => Self::#vident(ref f) => ::static_xml::ser::ToText::to_text(f) }
         })
         .collect();
     let ident = &enum_.input.ident;
     quote_spanned! {
-        ident.span() =>
+        located(ident.span()) =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
                 match self {
@@ -45,10 +45,10 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
             let vident = &v.inner.ident;
             match v.mode {
                 TextVariantMode::Known { ref text } => {
-                    quote_spanned! { vident.span() => Self::#vident => #text }
+                    quote_spanned! { located(vident.span()) => Self::#vident => #text }
                 },
                 TextVariantMode::Unknown => {
-                    quote_spanned! { vident.span() => Self::#vident(text) => ::std::convert::AsRef::<str>::as_ref(text) }
+                    quote_spanned! { located(vident.span()) => Self::#vident(text) => ::std::convert::AsRef::<str>::as_ref(text) }
                 },
             }
         })
@@ -61,7 +61,7 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
         quote! { Ok(match self { #(#match_arms, )* }.to_owned()) }
     };
     quote_spanned! {
-        ident.span() =>
+        located(ident.span()) =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
                 #value
-- 
2.43.0


From 70eeaf1cb4c42ca9b331bc1f64577f7f2cd32395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 20/23] fix: refuse to derive Deserialize for structs with
 unaligned fields

The visitor wrote to fields of packed structs through misaligned pointers.
---
 static-xml-derive/src/deserialize.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index fa19099..c55fca3 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -283,6 +283,22 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
         .collect()
 }
 
+/// Statements which compile only if a reference may be taken to each field.
+///
+/// The visitor writes to fields through pointers and hands out references to
+/// them, both of which need them to be aligned. They aren't necessarily if the
+/// struct is packed.
+fn check_aligned(struct_: &ElementStruct) -> Vec<TokenStream> {
+    struct_
+        .fields
+        .iter()
+        .map(|f| {
+            let ident = &f.ident;
+            quote_spanned! {located(ident.span())=> let _ = &_value.#ident; }
+        })
+        .collect()
+}
+
 fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let attributes = attributes(&struct_);
     let attribute_match_branches = attribute_match_branches(&struct_);
@@ -296,6 +312,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
     let release_fields = release_fields(&struct_);
     let flatten_visitors = quote_flatten_visitors(&struct_);
+    let check_aligned = check_aligned(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
         attribute_fallthrough = quote! { Ok(Some(value)) };
@@ -334,6 +351,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
         const ATTRIBUTES: &[::static_xml::ExpandedNameRef] = &[#(#attributes,)*];
         const ELEMENTS: &[::static_xml::ExpandedNameRef] = &[#(#elements,)*];
 
+        const _: fn(&#ident) = |_value| { #(#check_aligned)* };
+
         // If there's an underlying field named e.g. `foo_`, then there will be
         // a generated field name e.g. `foo__required` or `foo__visitor`. Don't
         // complain about this.
-- 
2.43.0


From 69851f1643825e60b7b31e0097da4ffde360b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 21/23] fix: name the standard library's items by path in
 derived code

A definition couldn't derive anything if it was called e.g. Result, or was
next to an alias of that name.
---
 static-xml-derive/src/deserialize.rs | 72 ++++++++++++++--------------
 static-xml-derive/src/parse.rs       | 22 ++++-----
 static-xml-derive/src/serialize.rs   | 20 ++++----
 static-xml-derive/src/to_text.rs     | 10 ++--
 static-xml/src/de/mod.rs             |  9 ++--
 5 files changed, 68 insertions(+), 65 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index c55fca3..e90b9bd 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -147,9 +147,9 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
             ElementFieldMode::Flatten => {
                 let field_visitor = format_ident!("{}_visitor", field.ident);
                 let d = if let Some(d) = default {
-                    quote! { Some(#d) }
+                    quote! { ::std::option::Option::Some(#d) }
                 } else {
-                    quote! { None }
+                    quote! { ::std::option::Option::None }
                 };
                 let field_present = format_ident!("{}_present", field.ident);
                 let field_mut = field_mut(field);
@@ -223,10 +223,10 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", field.ident);
             let field_mut = field_mut(field);
             quote! {
-                Some(#i) if self.#field_present.is_initialized() => {
-                    Err(::static_xml::de::VisitorError::duplicate_attribute(name))
+                ::std::option::Option::Some(#i) if self.#field_present.is_initialized() => {
+                    ::std::result::Result::Err(::static_xml::de::VisitorError::duplicate_attribute(name))
                 }
-                Some(#i) => {
+                ::std::option::Option::Some(#i) => {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     unsafe {
                         ::std::ptr::write(
@@ -236,7 +236,7 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                     }
                     // SAFETY: it's now initialized.
                     unsafe { self.#field_present.set_initialized() };
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
         })
@@ -265,18 +265,18 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                 ::static_xml::de::DeserializeElementField::init(#child)?
             };
             quote_spanned! {span=>
-                Some(#i) if self.#field_present.is_initialized() => {
+                ::std::option::Option::Some(#i) if self.#field_present.is_initialized() => {
                     #update;
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
-                Some(#i) => unsafe {
+                ::std::option::Option::Some(#i) => unsafe {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     ::std::ptr::write(
                         #field_mut,
                         #init,
                     );
                     self.#field_present.set_initialized();
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
         })
@@ -315,8 +315,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let check_aligned = check_aligned(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
-        attribute_fallthrough = quote! { Ok(Some(value)) };
-        element_fallthrough = quote! { Ok(Some(child)) };
+        attribute_fallthrough = quote! { ::std::result::Result::Ok(::std::option::Option::Some(value)) };
+        element_fallthrough = quote! { ::std::result::Result::Ok(::std::option::Option::Some(child)) };
     } else {
         attribute_fallthrough = quote! {
             ::static_xml::de::delegate_attribute(&mut [#(#flatten_visitors),*], name, value)
@@ -333,14 +333,14 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
 
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
-            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
+            fn characters(&mut self, s: ::std::string::String, _p: ::static_xml::TextPosition) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::BoxedStdError> {
                 self._text_buf.push_str(&s);
-                Ok(None)
+                ::std::result::Result::Ok(::std::option::Option::None)
             }
         }
     } else if !flatten_visitors.is_empty() {
         quote! {
-            fn characters(&mut self, s: String, p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
+            fn characters(&mut self, s: ::std::string::String, p: ::static_xml::TextPosition) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::BoxedStdError> {
                 ::static_xml::de::delegate_characters(&mut [#(#flatten_visitors),*], s, p)
             }
         }
@@ -371,7 +371,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             fn element<'a>(
                 &mut self,
                 child: ::static_xml::de::ElementReader<'a>,
-            ) -> Result<Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<::std::option::Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
                 match ::static_xml::de::find(&child.expanded_name(), ELEMENTS) {
                     #(#element_match_branches,)*
                     _ => #element_fallthrough
@@ -381,8 +381,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             fn attribute<'a>(
                 &mut self,
                 name: &::static_xml::ExpandedNameRef,
-                value: String,
-            ) -> Result<Option<String>, ::static_xml::de::VisitorError> {
+                value: ::std::string::String,
+            ) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::de::VisitorError> {
                 match ::static_xml::de::find(name, ATTRIBUTES) {
                     #(#attribute_match_branches,)*
                     _ => #attribute_fallthrough
@@ -408,7 +408,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
 
             #[allow(unused_mut)]
-            fn finalize(mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            fn finalize(mut self, _default: ::std::option::Option<fn() -> Self::Out>) -> ::std::result::Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 // On error, the guards drop those fields which were initialized.
@@ -418,7 +418,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 // finalize_visitor_fields has guaranteed that each field is fully initialized.
                 // The padding doesn't matter. This is similar to this example
                 // https://doc.rust-lang.org/stable/std/mem/union.MaybeUninit.html#initializing-a-struct-field-by-field
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
 
@@ -449,17 +449,17 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {span=>
-                        #ident::#vident if element_i == Some(#i) => {
-                            return Ok(None);
+                        #ident::#vident if element_i == ::std::option::Option::Some(#i) => {
+                            return ::std::result::Result::Ok(::std::option::Option::None);
                         }
                         #ident::#vident => #i
                     }
                 }
                 Some(_) => {
                     quote_spanned! {span=>
-                        #ident::#vident(f) if element_i == Some(#i) => {
+                        #ident::#vident(f) if element_i == ::std::option::Option::Some(#i) => {
                             ::static_xml::de::DeserializeElementField::update(f, child)?;
-                            return Ok(None);
+                            return ::std::result::Result::Ok(::std::option::Option::None);
                         }
                         #ident::#vident(_) => #i
                     }
@@ -481,12 +481,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {
-                        located(vident.span()) => Some(#i) => { #ident::#vident }
+                        located(vident.span()) => ::std::option::Option::Some(#i) => { #ident::#vident }
                     }
                 }
                 Some(_) => {
                     quote_spanned! {
-                        located(vident.span()) => Some(#i) => {
+                        located(vident.span()) => ::std::option::Option::Some(#i) => {
                             #ident::#vident(::static_xml::de::DeserializeElementField::init(child)?)
                         }
                     }
@@ -513,7 +513,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             fn element<'a>(
                 &mut self,
                 mut child: ::static_xml::de::ElementReader<'a>,
-            ) -> Result<Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<::std::option::Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
                 let name = child.expanded_name();
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
@@ -522,21 +522,21 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                         #(#initialized_match_arms,)*
                     };
                     if element_i.is_some() {
-                        return Err(::static_xml::de::VisitorError::unexpected_element(
+                        return ::std::result::Result::Err(::static_xml::de::VisitorError::unexpected_element(
                             &name,
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(Some(child));
+                    return ::std::result::Result::Ok(::std::option::Option::Some(child));
                 }
                 let value = match element_i {
                     #(#uninitialized_match_arms,)*
-                    _ => return Ok(Some(child)),
+                    _ => return ::std::result::Result::Ok(::std::option::Option::Some(child)),
                 };
                 // SAFETY: self.out is a valid pointer to uninitialized memory.
                 unsafe { ::std::ptr::write(self.out, value) };
                 self.initialized = true;
-                Ok(None)
+                ::std::result::Result::Ok(::std::option::Option::None)
             }
         }
 
@@ -553,20 +553,20 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
 
             fn finalize(
                 self,
-                default: Option<fn() -> Self::Out>,
-            ) -> Result<(), ::static_xml::de::VisitorError> {
+                default: ::std::option::Option<fn() -> Self::Out>,
+            ) -> ::std::result::Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
-                    if let Some(d) = default {
+                    if let ::std::option::Option::Some(d) = default {
                         let value = d();
                         // SAFETY: self.out is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(self.out, value) };
                     } else {
-                        return Err(static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
+                        return ::std::result::Result::Err(::static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
                 ::std::mem::forget(self);
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
 
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index fb9032f..c8c4415 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -39,19 +39,19 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
             quote_spanned! {
                 located(ident.span()) =>
                 match <#ty as ::static_xml::de::ParseText>::parse(text.clone()) {
-                    Ok(r) => return Ok(Self::#ident(r)),
-                    Err(e) => errors.push(e),
+                    ::std::result::Result::Ok(r) => return ::std::result::Result::Ok(Self::#ident(r)),
+                    ::std::result::Result::Err(e) => errors.push(e),
                 }
             }
         })
         .collect();
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
-                let mut errors = Vec::new();
+                let mut errors = ::std::vec::Vec::new();
                 #(#attempts)*
-                Err(::static_xml::de::union_error(stringify!(#ident), errors))
+                ::std::result::Result::Err(::static_xml::de::union_error(stringify!(#ident), errors))
             }
         }
     }
@@ -71,20 +71,20 @@ fn do_restriction(
                 TextVariantMode::Unknown => return None,
             };
             let ident = &v.inner.ident;
-            Some(quote_spanned! { located(ident.span()) => #text => Ok(Self::#ident) })
+            Some(quote_spanned! { located(ident.span()) => #text => ::std::result::Result::Ok(Self::#ident) })
         })
         .collect();
     let fallthrough = if let Some(i) = unknown_variant {
         let vident = &variants[i].inner.ident;
-        quote_spanned! { located(vident.span()) => _ => Ok(Self::#vident(text)) }
+        quote_spanned! { located(vident.span()) => _ => ::std::result::Result::Ok(Self::#vident(text)) }
     } else {
-        quote! { t => Err(::static_xml::de::no_such_variant(stringify!(#ident), t)) }
+        quote! { t => ::std::result::Result::Err(::static_xml::de::no_such_variant(stringify!(#ident), t)) }
     };
     let ident = &enum_.input.ident;
     let normalize = normalize(enum_.whitespace);
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
                 match text.as_str() {
                     #(#match_arms, )*
@@ -99,10 +99,10 @@ fn do_std(ident: &proc_macro2::Ident, attr: &TextAttr) -> TokenStream {
     let normalize = normalize(attr.whitespace);
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
                 ::std::str::FromStr::from_str(text.as_str())
-                    .map_err(|e| Box::new(e) as ::static_xml::BoxedStdError)
+                    .map_err(|e| ::std::boxed::Box::new(e) as ::static_xml::BoxedStdError)
             }
         }
     }
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 16a1cae..7694bc2 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -102,15 +102,15 @@ fn do_struct(_errors: &Errors, struct_: &ElementStruct) -> TokenStream {
     let impl_root = impl_root(&struct_.attr.name);
     quote! {
         impl ::static_xml::ser::Serialize for #ident {
-            fn write_attributes(&self, mut builder: &mut ::static_xml::ser::ElementBuilder) -> Result<(), ::static_xml::ser::Error> {
+            fn write_attributes(&self, mut builder: &mut ::static_xml::ser::ElementBuilder) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_namespaces)*
                 #(#write_attributes)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
-            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> Result<(), ::static_xml::ser::Error> {
+            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_children)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
         #impl_root
@@ -139,8 +139,8 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => return Err(::static_xml::ser::Error(
-                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned(),
+            _ => return ::std::result::Result::Err(::static_xml::ser::Error(
+                ::std::string::String::from(concat!("can't serialize skipped variant of ", stringify!(#ident))),
             ))
         });
     }
@@ -148,16 +148,16 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     let impl_root = impl_root(&enum_.attr.name);
     quote! {
         impl ::static_xml::ser::Serialize for #ident {
-            fn write_attributes(&self, builder: &mut ::static_xml::ser::ElementBuilder) -> Result<(), ::static_xml::ser::Error> {
+            fn write_attributes(&self, builder: &mut ::static_xml::ser::ElementBuilder) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_namespaces)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
-            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> Result<(), ::static_xml::ser::Error> {
+            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 match self {
                     #(#match_arms,)*
                 }
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
         #impl_root
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index bf1a4d9..6b660cd 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -29,7 +29,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
     quote_spanned! {
         located(ident.span()) =>
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 match self {
                     #(#match_arms, )*
                 }
@@ -58,12 +58,12 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
     let value = if variants.is_empty() {
         quote! { match *self {} }
     } else {
-        quote! { Ok(match self { #(#match_arms, )* }.to_owned()) }
+        quote! { ::std::result::Result::Ok(::std::string::String::from(match self { #(#match_arms, )* })) }
     };
     quote_spanned! {
         located(ident.span()) =>
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 #value
             }
         }
@@ -73,8 +73,8 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
 fn do_std(ident: &proc_macro2::Ident) -> TokenStream {
     quote! {
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                Ok(::std::string::ToString::to_string(self))
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
+                ::std::result::Result::Ok(::std::string::ToString::to_string(self))
             }
         }
     }
diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index d0f2ca2..67c987a 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -805,14 +805,17 @@ macro_rules! impl_deserialize_via_raw {
         impl ::static_xml::de::Deserialize for $t {
             fn deserialize(
                 element: ::static_xml::de::ElementReader<'_>,
-            ) -> Result<Self, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<Self, ::static_xml::de::VisitorError> {
                 let mut out = ::std::mem::MaybeUninit::uninit();
                 let mut visitor =
                     <$visitor as ::static_xml::de::RawDeserializeVisitor>::new(&mut out);
                 element.read_to(&mut visitor)?;
-                ::static_xml::de::RawDeserializeVisitor::finalize(visitor, None)?;
+                ::static_xml::de::RawDeserializeVisitor::finalize(
+                    visitor,
+                    ::std::option::Option::None,
+                )?;
                 // SAFETY: finalize's contract guarantees assume_init is safe.
-                Ok(unsafe { out.assume_init() })
+                ::std::result::Result::Ok(unsafe { out.assume_init() })
             }
         }
     };
-- 
2.43.0


From d591e68d28dfb1f659f28c270c86b8fe192675d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 22/23] fix: report a type's second prefix, as a field's,
 instead of ignoring the first

---
 static-xml-derive/src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index a7d6082..73d17c1 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -403,6 +403,9 @@ impl<'a> ElementAttr<'a> {
                         if id == "rename" {
                             with_lit_str(errors, &nv, &mut |l| name.local_name = l.value());
                         } else if id == "prefix" {
+                            if prefix_nv.is_some() {
+                                errors.push(syn::Error::new_spanned(&nv, "duplicate prefix"));
+                            }
                             // Defer evaluation until we have all the namespaces.
                             prefix_nv = Some(nv);
                         } else if id == "namespace" {
-- 
2.43.0


From e013134481ea0bfacced38bf28612c493be62973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 23/23] fix: name the macros used in derived code by path, too

---
 static-xml-derive/src/deserialize.rs | 4 ++--
 static-xml-derive/src/parse.rs       | 4 ++--
 static-xml-derive/src/serialize.rs   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e90b9bd..1af275b 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -469,7 +469,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .collect();
     if enum_.has_skipped_variants {
         initialized_match_arms.push(quote! {
-            _ => unreachable!("skipped variants are never deserialized")
+            _ => ::std::unreachable!("skipped variants are never deserialized")
         });
     }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
@@ -561,7 +561,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                         // SAFETY: self.out is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(self.out, value) };
                     } else {
-                        return ::std::result::Result::Err(::static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
+                        return ::std::result::Result::Err(::static_xml::de::VisitorError::cant_be_empty(::std::stringify!(#ident)));
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index c8c4415..dd42993 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -51,7 +51,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
                 #normalize
                 let mut errors = ::std::vec::Vec::new();
                 #(#attempts)*
-                ::std::result::Result::Err(::static_xml::de::union_error(stringify!(#ident), errors))
+                ::std::result::Result::Err(::static_xml::de::union_error(::std::stringify!(#ident), errors))
             }
         }
     }
@@ -78,7 +78,7 @@ fn do_restriction(
         let vident = &variants[i].inner.ident;
         quote_spanned! { located(vident.span()) => _ => ::std::result::Result::Ok(Self::#vident(text)) }
     } else {
-        quote! { t => ::std::result::Result::Err(::static_xml::de::no_such_variant(stringify!(#ident), t)) }
+        quote! { t => ::std::result::Result::Err(::static_xml::de::no_such_variant(::std::stringify!(#ident), t)) }
     };
     let ident = &enum_.input.ident;
     let normalize = normalize(enum_.whitespace);
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 7694bc2..e55071c 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -140,7 +140,7 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
             _ => return ::std::result::Result::Err(::static_xml::ser::Error(
-                ::std::string::String::from(concat!("can't serialize skipped variant of ", stringify!(#ident))),
+                ::std::string::String::from(::std::concat!("can't serialize skipped variant of ", ::std::stringify!(#ident))),
             ))
         });
     }
-- 
2.43.0

