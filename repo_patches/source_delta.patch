From 6d49365db12a81132836a5e97bbd7ddbb38f3a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 01/13] fix: OrdinalMap::contains_key returned true for absent
 keys after the first insertion

---
 ordinal-map/src/map/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/map/map.rs b/ordinal-map/src/map/map.rs
index e1765ae..46d4555 100644
--- a/ordinal-map/src/map/map.rs
+++ b/ordinal-map/src/map/map.rs
@@ -56,7 +56,7 @@ impl<K: Ordinal, V> OrdinalMap<K, V> {
     /// Returns `true` if the map contains the key.
     #[inline]
     pub fn contains_key(&self, key: &K) -> bool {
-        self.map.get(key.ordinal()).is_some()
+        self.get(key).is_some()
     }
 
     /// Returns the number of elements in the map. This is an `O(K::ORDINAL_SIZE)` operation.
-- 
2.43.0


From f1e2b1b200e396539714b33fbf77afb782e548aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 02/13] fix: char::from_ordinal accepted ordinals above
 u32::MAX by truncating them

---
 ordinal-map/src/ordinal/impls/char.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/ordinal/impls/char.rs b/ordinal-map/src/ordinal/impls/char.rs
index f803c78..b760f59 100644
--- a/ordinal-map/src/ordinal/impls/char.rs
+++ b/ordinal-map/src/ordinal/impls/char.rs
@@ -18,7 +18,7 @@ impl Ordinal for char {
         if ordinal < SURROGATE_START as usize {
             char::from_u32(ordinal as u32)
         } else {
-            char::from_u32((ordinal as u32).checked_add(0x800)?)
+            char::from_u32(u32::try_from(ordinal).ok()?.checked_add(0x800)?)
         }
     }
 }
-- 
2.43.0


From d0b49b596c0108fa419cf6a59736af4aee75f7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 03/13] fix: OrdinalSet64::all overflowed for types with
 exactly 64 values

---
 ordinal-map/src/set/set64.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set64.rs b/ordinal-map/src/set/set64.rs
index e2a13cc..3a09cbd 100644
--- a/ordinal-map/src/set/set64.rs
+++ b/ordinal-map/src/set/set64.rs
@@ -100,7 +100,10 @@ impl<T: Ordinal> OrdinalSet64<T> {
     pub fn all() -> Self {
         const { Self::ASSERT };
         OrdinalSet64 {
-            set: (1 << T::ORDINAL_SIZE) - 1,
+            set: match 1u64.checked_shl(T::ORDINAL_SIZE as u32) {
+                Some(bit) => bit - 1,
+                None => u64::MAX,
+            },
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 3f9ec82427c9bdd27707d99d486b65d51a57d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 04/13] fix: OrdinalSet and OrdinalSet64 of an uninhabited type
 panicked in debug builds

---
 ordinal-map/src/set/set_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ordinal-map/src/set/set_ref.rs b/ordinal-map/src/set/set_ref.rs
index 5913072..075463c 100644
--- a/ordinal-map/src/set/set_ref.rs
+++ b/ordinal-map/src/set/set_ref.rs
@@ -19,7 +19,7 @@ impl<'a, T: Ordinal> OrdinalSetRef<'a, T> {
 
     #[inline]
     pub(crate) fn new(words: &'a [u64]) -> Self {
-        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>());
+        debug_assert!(words.len() == 0 || words.len() == ordinal_array_set_s::<T>().max(1));
         OrdinalSetRef {
             words,
             _phantom: PhantomData,
-- 
2.43.0


From b9c9c73550e394f3c680f3f31ec5bd9e6f966d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 05/13] fix: size_hint of the consuming iterator of
 OrdinalTotalArrayMap was not exact

---
 ordinal-map/src/map/total/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ordinal-map/src/map/total/iter.rs b/ordinal-map/src/map/total/iter.rs
index d1643cb..24d317f 100644
--- a/ordinal-map/src/map/total/iter.rs
+++ b/ordinal-map/src/map/total/iter.rs
@@ -138,6 +138,11 @@ impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Ordinal, V, const S: usize> ExactSizeIterator for IntoIterArray<K, V, S> {
-- 
2.43.0


From 518dc0505012a4c2567e88f53a5d4c1f6d4abba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 06/13] fix: reject Result, Either and arrays with more than
 usize::MAX values at compile time

---
 ordinal-map/src/ordinal/impls/array.rs  | 2 ++
 ordinal-map/src/ordinal/impls/either.rs | 2 ++
 ordinal-map/src/ordinal/impls/std.rs    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/ordinal-map/src/ordinal/impls/array.rs b/ordinal-map/src/ordinal/impls/array.rs
index d3e554a..4add6d0 100644
--- a/ordinal-map/src/ordinal/impls/array.rs
+++ b/ordinal-map/src/ordinal/impls/array.rs
@@ -13,6 +13,7 @@ impl<T: Ordinal, const N: usize> Ordinal for [T; N] {
     };
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         let mut r = 0usize;
         for v in self {
             r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
@@ -22,6 +23,7 @@ impl<T: Ordinal, const N: usize> Ordinal for [T; N] {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         let mut n = ordinal;
         let mut array = ArrayBuilder::new();
         for _ in 0..N {
diff --git a/ordinal-map/src/ordinal/impls/either.rs b/ordinal-map/src/ordinal/impls/either.rs
index 6c8289f..3455e84 100644
--- a/ordinal-map/src/ordinal/impls/either.rs
+++ b/ordinal-map/src/ordinal/impls/either.rs
@@ -8,6 +8,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Either<A, B> {
     const ORDINAL_SIZE: usize = Result::<A, B>::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Either::Left(a) => a.ordinal(),
             Either::Right(b) => A::ORDINAL_SIZE + b.ordinal(),
@@ -15,6 +16,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Either<A, B> {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         if ordinal < A::ORDINAL_SIZE {
             Some(Either::Left(A::from_ordinal(ordinal).unwrap()))
         } else {
diff --git a/ordinal-map/src/ordinal/impls/std.rs b/ordinal-map/src/ordinal/impls/std.rs
index 022364a..fa6b654 100644
--- a/ordinal-map/src/ordinal/impls/std.rs
+++ b/ordinal-map/src/ordinal/impls/std.rs
@@ -25,6 +25,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Result<A, B> {
     const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + B::ORDINAL_SIZE;
 
     fn ordinal(&self) -> usize {
+        const { Self::ORDINAL_SIZE };
         match self {
             Ok(a) => a.ordinal(),
             Err(b) => A::ORDINAL_SIZE + b.ordinal(),
@@ -32,6 +33,7 @@ impl<A: Ordinal, B: Ordinal> Ordinal for Result<A, B> {
     }
 
     fn from_ordinal(ordinal: usize) -> Option<Self> {
+        const { Self::ORDINAL_SIZE };
         if ordinal < A::ORDINAL_SIZE {
             Some(Ok(A::from_ordinal(ordinal).unwrap()))
         } else {
-- 
2.43.0


From a21c24ad444538ac7c604c0c1af04ba94a48c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 07/13] fix: OrdinalTotalArrayMap::from_array did not check the
 size parameter

---
 ordinal-map/src/map/total/array_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ordinal-map/src/map/total/array_map.rs b/ordinal-map/src/map/total/array_map.rs
index 157cdb5..b3bc839 100644
--- a/ordinal-map/src/map/total/array_map.rs
+++ b/ordinal-map/src/map/total/array_map.rs
@@ -71,6 +71,7 @@ impl<K: Ordinal, V, const S: usize> OrdinalTotalArrayMap<K, V, S> {
 
     /// Create a new map from an array of values in ordinal order of keys.
     pub fn from_array(array: [V; S]) -> Self {
+        const { Self::ASSERT };
         OrdinalTotalArrayMap {
             map: array,
             _phantom: PhantomData,
-- 
2.43.0


From 691249f3cd79be5928ea5cdaafacde539fb966e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 08/13] fix: derive(Ordinal) failed to compile for a field
 named `rem`

---
 ordinal-map-derive/src/ordinal.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index f0ece3a..e3f4b72 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -267,24 +267,27 @@ fn struct_from_ordinal<'a>(
     let field_vars = Vec::from_iter(field_vars);
     let field_types = Vec::from_iter(field_types);
 
+    // Must not clash with a field of the same name.
+    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
+
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
-        let mut rem = #ordinal;
+        let mut #rem = #ordinal;
     });
     for (field_var, field_ty) in field_vars.iter().zip(&field_types).rev() {
         let field_ordinal_size = SizeExpr::ordinal_size(field_ty).const_expr();
         stmts.extend([
             syn::parse_quote_spanned! { field_var.span() =>
                 let #field_var = <#field_ty as ordinal_map::Ordinal>::from_ordinal(
-                    rem % #field_ordinal_size).unwrap();
+                    #rem % #field_ordinal_size).unwrap();
             },
             syn::parse_quote_spanned! { field_var.span() =>
-                rem /= #field_ordinal_size;
+                #rem /= #field_ordinal_size;
             },
         ]);
     }
     stmts.push(syn::parse_quote_spanned! { span =>
-        if rem != 0 {
+        if #rem != 0 {
             return None
         }
     });
-- 
2.43.0


From 99fa20050bc1d3afaefca9896fbe16912f47d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 09/13] fix: derive(Ordinal) failed to compile when a variant
 named `None` was imported

---
 ordinal-map-derive/src/ordinal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index e3f4b72..01d9aec 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -72,7 +72,7 @@ fn check_zero_size() -> syn::Stmt {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
         if Self::ORDINAL_SIZE == 0 {
-            return None;
+            return std::option::Option::None;
         }
     }
 }
@@ -288,7 +288,7 @@ fn struct_from_ordinal<'a>(
     }
     stmts.push(syn::parse_quote_spanned! { span =>
         if #rem != 0 {
-            return None
+            return std::option::Option::None
         }
     });
     let build = constructor(
-- 
2.43.0


From 7193c33bca7b137be630a247eb3385c699990671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 10/13] fix: derive(Ordinal) used an inherent const or a
 variant named ORDINAL_SIZE instead of the trait's

---
 ordinal-map-derive/src/ordinal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index 01d9aec..bc9d8d9 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -63,7 +63,7 @@ pub(crate) fn derive_ordinal(
 fn check_overflow() -> syn::Stmt {
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
-        let _check_overflow = Self::ORDINAL_SIZE;
+        let _check_overflow = <Self as ordinal_map::Ordinal>::ORDINAL_SIZE;
     }
 }
 
@@ -71,7 +71,7 @@ fn check_zero_size() -> syn::Stmt {
     syn::parse_quote! {
         // - Make sure multiplication doesn't overflow by accessing the field
         // - Make sure we don't divide by zero in the implementation body
-        if Self::ORDINAL_SIZE == 0 {
+        if <Self as ordinal_map::Ordinal>::ORDINAL_SIZE == 0 {
             return std::option::Option::None;
         }
     }
-- 
2.43.0


From 3c15730e130596165c4851f8ed07cd9e991b367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 11/13] fix: derive(Ordinal) failed to compile for types
 declared in macro_rules with names passed to the macro

---
 ordinal-map-derive/src/ordinal.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index bc9d8d9..dd3c55f 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -40,13 +40,14 @@ pub(crate) fn derive_ordinal(
 
     let check_overflow = check_overflow();
     let check_zero_size = check_zero_size();
+    let self_token = self_token();
 
     Ok(syn::parse_quote_spanned! { span =>
         #[allow(clippy::all)]
         impl #impl_generics ordinal_map::Ordinal for #ident #ty_generics #where_clause {
             const ORDINAL_SIZE: usize = #size;
 
-            fn ordinal(&self) -> usize {
+            fn ordinal(&#self_token) -> usize {
                 #check_overflow
                 #index_expr
             }
@@ -60,6 +61,12 @@ pub(crate) fn derive_ordinal(
     })
 }
 
+/// All mentions of `self` must have the same hygiene,
+/// even if the tokens of the type come from different macros.
+fn self_token() -> syn::Token![self] {
+    syn::Token![self](proc_macro2::Span::call_site())
+}
+
 fn check_overflow() -> syn::Stmt {
     syn::parse_quote! {
         // Make sure multiplication doesn't overflow.
@@ -307,11 +314,12 @@ fn struct_from_ordinal<'a>(
 
 impl StructGen {
     fn field_ref_exprs(&self) -> impl Iterator<Item = syn::Expr> + '_ {
-        self.s.fields.iter().enumerate().map(|(i, f)| {
+        let self_token = self_token();
+        self.s.fields.iter().enumerate().map(move |(i, f)| {
             let i = syn::Index::from(i);
             match &f.ident {
-                Some(ident) => syn::parse_quote_spanned! { ident.span() => &self.#ident },
-                None => syn::parse_quote_spanned! { f.span() => &self.#i },
+                Some(ident) => syn::parse_quote_spanned! { ident.span() => &#self_token.#ident },
+                None => syn::parse_quote_spanned! { f.span() => &#self_token.#i },
             }
         })
     }
@@ -429,9 +437,10 @@ impl EnumGen {
                 }
             })
         }
+        let self_token = self_token();
         Ok(SizeExpr::Syn(syn::parse_quote_spanned! {
             self.e.enum_token.span =>
-            match self {
+            match #self_token {
                 #( #arms, )*
             }
         }))
-- 
2.43.0


From 6dec49ae4540323680861c1c81b719b87b81e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 12/13] fix: derive(Ordinal) failed to compile when a constant
 had the name of a field or of a generated variable

---
 ordinal-map-derive/src/ordinal.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ordinal-map-derive/src/ordinal.rs b/ordinal-map-derive/src/ordinal.rs
index dd3c55f..b3a4506 100644
--- a/ordinal-map-derive/src/ordinal.rs
+++ b/ordinal-map-derive/src/ordinal.rs
@@ -9,7 +9,7 @@ pub(crate) fn derive_ordinal(
 
     let ident = input.ident;
 
-    let from_ordinal_ordinal_var = format_ident!("ordinal");
+    let from_ordinal_ordinal_var = format_ident!("__ordinal");
 
     let (size, index_expr, from_index_expr) = match input.data {
         syn::Data::Struct(s) => {
@@ -84,11 +84,16 @@ fn check_zero_size() -> syn::Stmt {
     }
 }
 
+/// Names of local variables must not be names of constants or unit structs visible to the type.
 fn field_vars(fields: &syn::Fields) -> impl Iterator<Item = syn::Ident> + '_ {
-    fields.iter().enumerate().map(|(i, f)| match &f.ident {
-        Some(ident) => ident.clone(),
-        None => syn::Ident::new(&format!("f{}", i), f.span()),
-    })
+    fields
+        .iter()
+        .enumerate()
+        .map(|(i, f)| syn::Ident::new(&format!("__f{}", i), f.span()))
+}
+
+fn field_names(fields: &syn::Fields) -> impl Iterator<Item = &syn::Ident> {
+    fields.iter().filter_map(|f| f.ident.as_ref())
 }
 
 fn field_types(fields: &syn::Fields) -> impl Iterator<Item = &syn::Type> {
@@ -275,7 +280,7 @@ fn struct_from_ordinal<'a>(
     let field_types = Vec::from_iter(field_types);
 
     // Must not clash with a field of the same name.
-    let rem = syn::Ident::new("rem", proc_macro2::Span::mixed_site());
+    let rem = syn::Ident::new("__rem", proc_macro2::Span::mixed_site());
 
     let mut stmts: Vec<syn::Stmt> = Vec::new();
     stmts.push(syn::parse_quote_spanned! { span =>
@@ -344,6 +349,7 @@ impl StructGen {
     fn from_ordinal(&self, ordinal_var: &syn::Ident) -> syn::Result<syn::Expr> {
         let field_types: Vec<_> = field_types(&self.s.fields).collect();
         let field_vars: Vec<_> = field_vars(&self.s.fields).collect();
+        let field_names = field_names(&self.s.fields);
         struct_from_ordinal(
             &syn::parse_quote_spanned! { ordinal_var.span() => #ordinal_var },
             field_vars.iter().cloned(),
@@ -363,7 +369,7 @@ impl StructGen {
                 syn::Fields::Named(_) => {
                     syn::parse_quote_spanned! { self.s.struct_token.span =>
                         Self {
-                            #( #field_vars: #exprs, )*
+                            #( #field_names: #exprs, )*
                         }
                     }
                 }
@@ -402,6 +408,7 @@ impl EnumGen {
             let variant_name = &variant.ident;
             let vars = Vec::from_iter(field_vars(&variant.fields));
             let vars = vars.as_slice();
+            let names = field_names(&variant.fields);
             let size_of_first_variants = self.size_of_first_variants(i)?;
             let bind: syn::Pat = match &variant.fields {
                 syn::Fields::Unit => syn::parse_quote_spanned! {
@@ -417,7 +424,7 @@ impl EnumGen {
                 syn::Fields::Named(_) => {
                     syn::parse_quote_spanned! {
                         variant.span() =>
-                        Self::#variant_name { #( #vars ),* }
+                        Self::#variant_name { #( #names: #vars ),* }
                     }
                 }
             };
@@ -455,6 +462,7 @@ impl EnumGen {
                 #ordinal_var - #size_of_first_variants_before
             };
             let variant_name = &variant.ident;
+            let names = field_names(&variant.fields);
             let struct_from_ordinal = struct_from_ordinal(
                 &rem_ordinal,
                 field_vars(&variant.fields),
@@ -471,7 +479,7 @@ impl EnumGen {
                     }
                     syn::Fields::Named(_) => {
                         syn::parse_quote_spanned! { variant.span() =>
-                            Self::#variant_name { #( #exprs ),* }
+                            Self::#variant_name { #( #names: #exprs ),* }
                         }
                     }
                 },
-- 
2.43.0


From 03b276e2eabe94a6c681831f11253dca26201377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:57 +0000
Subject: [PATCH 13/13] fix: build on 32-bit platforms

The sizes of u32, i32, NonZeroU64 and NonZeroI64 do not fit usize there.
Constants of non-generic impls are evaluated even if nobody uses them, so
the whole library failed to compile on 32-bit platforms instead of only
the use of these types.
---
 ordinal-map/src/ordinal/impls/non_zero.rs  | 5 +++++
 ordinal-map/src/ordinal/impls/primitive.rs | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/ordinal-map/src/ordinal/impls/non_zero.rs b/ordinal-map/src/ordinal/impls/non_zero.rs
index ea1c7ff..d040e90 100644
--- a/ordinal-map/src/ordinal/impls/non_zero.rs
+++ b/ordinal-map/src/ordinal/impls/non_zero.rs
@@ -1,10 +1,12 @@
 use std::num::NonZeroI16;
 use std::num::NonZeroI32;
+#[cfg(target_pointer_width = "64")]
 use std::num::NonZeroI64;
 use std::num::NonZeroI8;
 use std::num::NonZeroIsize;
 use std::num::NonZeroU16;
 use std::num::NonZeroU32;
+#[cfg(target_pointer_width = "64")]
 use std::num::NonZeroU64;
 use std::num::NonZeroU8;
 use std::num::NonZeroUsize;
@@ -164,6 +166,7 @@ impl Ordinal for NonZeroIsize {
 }
 
 /// It is compile-time error to use this impl on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for NonZeroU64 {
     const ORDINAL_SIZE: usize = if u64::MAX == usize::MAX as u64 {
         usize::MAX
@@ -182,6 +185,8 @@ impl Ordinal for NonZeroU64 {
     }
 }
 
+/// It is compile-time error to use this impl on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for NonZeroI64 {
     const ORDINAL_SIZE: usize = NonZeroU64::ORDINAL_SIZE;
 
diff --git a/ordinal-map/src/ordinal/impls/primitive.rs b/ordinal-map/src/ordinal/impls/primitive.rs
index 7e34c7c..6fd0898 100644
--- a/ordinal-map/src/ordinal/impls/primitive.rs
+++ b/ordinal-map/src/ordinal/impls/primitive.rs
@@ -73,6 +73,7 @@ impl Ordinal for i16 {
 }
 
 /// Accessing this type is compile time error on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for u32 {
     const ORDINAL_SIZE: usize = u32::MAX as usize + 1;
 
@@ -88,6 +89,8 @@ impl Ordinal for u32 {
     }
 }
 
+/// Accessing this type is compile time error on 32-bit platforms.
+#[cfg(target_pointer_width = "64")]
 impl Ordinal for i32 {
     const ORDINAL_SIZE: usize = u32::ORDINAL_SIZE;
 
-- 
2.43.0

