From e87d251ec1648fad384c5c380f94ff2626c42686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 01/36] fix: look through arrays when ordering shared structs

A struct containing an array of another shared struct was emitted before the
definition of that struct, and a struct containing an array of itself was not
diagnosed as cyclic.
---
 syntax/toposort.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syntax/toposort.rs b/syntax/toposort.rs
index 9c97eb1..2942f0a 100644
--- a/syntax/toposort.rs
+++ b/syntax/toposort.rs
@@ -36,7 +36,11 @@ fn visit<'a>(
     }
     let mut result = Ok(());
     for field in &strct.fields {
-        if let Type::Ident(ident) = &field.ty {
+        let mut ty = &field.ty;
+        while let Type::Array(array) = ty {
+            ty = &array.inner;
+        }
+        if let Type::Ident(ident) = ty {
             if let Some(inner) = types.structs.get(&ident.rust) {
                 if visit(cx, inner, sorted, marks, types).is_err() {
                     cx.error(field, "unsupported cyclic data structure");
-- 
2.43.0


From 254bc0e50bd170999a0f299f0fd0823bc01c92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 02/36] fix: treat -0 as a non-negative enum discriminant

---
 syntax/discriminant.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index a8400aa..4953194 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -117,6 +117,7 @@ fn expr_to_discriminant(expr: &Expr) -> Result<(Discriminant, Option<Atom>)> {
             if let UnOp::Neg(_) = unary.op {
                 let (mut discriminant, repr) = expr_to_discriminant(&unary.expr)?;
                 discriminant.sign = match discriminant.sign {
+                    Sign::Positive if discriminant.magnitude == 0 => Sign::Positive,
                     Sign::Positive => Sign::Negative,
                     Sign::Negative => Sign::Positive,
                 };
-- 
2.43.0


From cb1097554ae85085c995b4516c2bc5de052f169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 03/36] fix: check by-value arguments and returns of function
 pointers

Signatures of function pointers were not held to the same rule as other
signatures: opaque types and C++ strings could be passed by value through
a callback.
---
 syntax/check.rs   | 12 ++++++++++++
 syntax/trivial.rs | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 39ee0b0..bdae979 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -311,6 +311,18 @@ fn check_type_fn(cx: &mut Check, ty: &Signature) {
                     "pointer argument requires that the function pointer be marked unsafe",
                 );
             }
+        } else if is_unsized(cx, &arg.ty) {
+            let desc = describe(cx, &arg.ty);
+            let msg = format!("passing {} by value is not supported", desc);
+            cx.error(arg, msg);
+        }
+    }
+
+    if let Some(ret) = &ty.ret {
+        if is_unsized(cx, ret) {
+            let desc = describe(cx, ret);
+            let msg = format!("returning {} by value is not supported", desc);
+            cx.error(ret, msg);
         }
     }
 }
diff --git a/syntax/trivial.rs b/syntax/trivial.rs
index 9533400..3e61737 100644
--- a/syntax/trivial.rs
+++ b/syntax/trivial.rs
@@ -67,6 +67,18 @@ pub(crate) fn required_trivial_reasons<'a>(
                                 }
                             }
                         }
+                        Type::Fn(sig) => {
+                            for arg in &sig.args {
+                                if let Type::Ident(ident) = &arg.ty {
+                                    let reason = TrivialReason::FunctionArgument(efn);
+                                    insist_extern_types_are_trivial(ident, reason);
+                                }
+                            }
+                            if let Some(Type::Ident(ident)) = &sig.ret {
+                                let reason = TrivialReason::FunctionReturn(efn);
+                                insist_extern_types_are_trivial(ident, reason);
+                            }
+                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From 8e9627b1f8fcddd69cf966dbc91fb32b0f174169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 04/36] fix: compare rust::Str as unsigned bytes

---
 src/cxx.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 45d9aac..02e0d68 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -357,8 +357,12 @@ bool Str::operator==(const Str &rhs) const noexcept {
 bool Str::operator!=(const Str &rhs) const noexcept { return !(*this == rhs); }
 
 bool Str::operator<(const Str &rhs) const noexcept {
-  return std::lexicographical_compare(this->begin(), this->end(), rhs.begin(),
-                                      rhs.end());
+  // UTF-8 code units compare as unsigned bytes, like Rust's str and std::string,
+  // regardless of whether char is signed on this platform.
+  return std::lexicographical_compare(
+      this->begin(), this->end(), rhs.begin(), rhs.end(), [](char l, char r) {
+        return static_cast<unsigned char>(l) < static_cast<unsigned char>(r);
+      });
 }
 
 bool Str::operator<=(const Str &rhs) const noexcept {
@@ -374,7 +378,8 @@ bool Str::operator<=(const Str &rhs) const noexcept {
   } else if (riter == rend) {
     return false; // rhs is a prefix of *this
   } else {
-    return *liter <= *riter;
+    return static_cast<unsigned char>(*liter) <=
+           static_cast<unsigned char>(*riter);
   }
 }
 
-- 
2.43.0


From 9ac4c94a4429e536a5b12d9e05b1caa973bad0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 05/36] fix: keep rust::Vec intact if a copy constructor throws
 during copy assignment

---
 include/cxx.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 4e261a3..1c8430d 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -898,8 +898,9 @@ Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
 template <typename T>
 Vec<T> &Vec<T>::operator=(const Vec &other) & {
   if (this != &other) {
-    this->drop();
-    new (this) Vec(other);
+    // Copy before dropping, in case T's copy constructor throws.
+    Vec copy(other);
+    this->swap(copy);
   }
   return *this;
 }
-- 
2.43.0


From 6c4424501d30c3af3c659150eaee6408c0fd650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 06/36] fix: allow pushing a copy of an element of the same
 rust::Vec

---
 include/cxx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 1c8430d..79589f2 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -987,11 +987,13 @@ void Vec<T>::push_back(T &&value) {
 template <typename T>
 template <typename... Args>
 void Vec<T>::emplace_back(Args &&...args) {
+  // Construct the element before growing, in case args refers to an existing
+  // element of this Vec.
+  T value = T(std::forward<Args>(args)...);
   auto size = this->size();
   this->reserve_total(size + 1);
   ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
-                               size * size_of<T>()))
-      T(std::forward<Args>(args)...);
+                               size * size_of<T>())) T(std::move(value));
   this->set_len(size + 1);
 }
 
-- 
2.43.0


From 5e080aeab630527973cc3c4aa8cc6b37368b7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:37 +0000
Subject: [PATCH 07/36] fix: accept elided lifetimes in the Ok type of fallible
 Rust functions

fn f(a: &T) -> Result<&T> in an extern "Rust" block expanded to code that does
not pass the borrow checker unless the lifetime was named.
---
 macro/src/expand.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index aa90fd0..0999082 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1131,7 +1131,9 @@ fn expand_rust_function_shim_impl(
     }
     if sig.throws {
         let out = match sig.ret {
-            Some(_) => quote_spanned!(span=> __return),
+            // Cast, because elided lifetimes in the type of __return are not
+            // unified with those in the type of the function's return value.
+            Some(_) => quote_spanned!(span=> __return.cast()),
             None => quote_spanned!(span=> &mut ()),
         };
         requires_closure = true;
@@ -1140,7 +1142,7 @@ fn expand_rust_function_shim_impl(
     } else if indirect_return {
         requires_closure = true;
         requires_unsafe = true;
-        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return, #expr));
+        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return.cast(), #expr));
     }
 
     if requires_unsafe {
-- 
2.43.0


From fbf1cc70d37e37e3094d4f23dfab868c2c750dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:24 +0000
Subject: [PATCH 08/36] fix: do not destroy an uninitialized string when
 let_cxx_string's value diverges

---
 src/cxx_string.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cxx_string.rs b/src/cxx_string.rs
index c58d8d8..a95485c 100644
--- a/src/cxx_string.rs
+++ b/src/cxx_string.rs
@@ -299,6 +299,9 @@ pub struct StackString {
     // Static assertions in cxx.cc validate that this is large enough and
     // aligned enough.
     space: MaybeUninit<[usize; 8]>,
+    // Whether `space` holds a string. It does not if the expression assigned to
+    // the string panics or returns out of the function using let_cxx_string.
+    init: bool,
 }
 
 #[allow(missing_docs)]
@@ -306,6 +309,7 @@ impl StackString {
     pub fn new() -> Self {
         StackString {
             space: MaybeUninit::uninit(),
+            init: false,
         }
     }
 
@@ -314,6 +318,7 @@ impl StackString {
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_init(this, value.as_ptr(), value.len());
+            self.init = true;
             Pin::new_unchecked(&mut *this.as_mut_ptr())
         }
     }
@@ -321,9 +326,11 @@ impl StackString {
 
 impl Drop for StackString {
     fn drop(&mut self) {
-        unsafe {
-            let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
-            string_destroy(this);
+        if self.init {
+            unsafe {
+                let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
+                string_destroy(this);
+            }
         }
     }
 }
-- 
2.43.0


From 492986069d0a6901e041f41b7a3a24116ee87c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 09/36] fix: export extern "Rust" functions that are unsafe and
 take no arguments

---
 macro/src/expand.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 0999082..a1cb2f8 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1062,7 +1062,9 @@ fn expand_rust_function_shim_impl(
     let mut requires_closure;
     let mut call = match invoke {
         Some(_) => {
-            requires_closure = false;
+            // An unsafe fn does not implement FnOnce.
+            requires_closure = sig.unsafety.is_some();
+            requires_unsafe |= sig.unsafety.is_some();
             quote!(#local_name)
         }
         None => {
-- 
2.43.0


From dd2d7135296f860280cf5478459ae3a74968d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 10/36] fix: pass Vec<&str> from C++ to Rust

---
 macro/src/expand.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index a1cb2f8..c1deccb 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1884,7 +1884,7 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
         Type::RustVec(ty) => {
             let span = ty.name.span();
             let langle = ty.langle;
-            let elem = expand_extern_type(&ty.inner, types, proper);
+            let elem = expand_extern_vec_element(&ty.inner, types, proper);
             let rangle = ty.rangle;
             quote_spanned!(span=> ::cxx::private::RustVec #langle #elem #rangle)
         }
@@ -1900,7 +1900,7 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
                 Type::RustVec(ty) => {
                     let span = ty.name.span();
                     let langle = ty.langle;
-                    let inner = expand_extern_type(&ty.inner, types, proper);
+                    let inner = expand_extern_vec_element(&ty.inner, types, proper);
                     let rangle = ty.rangle;
                     quote_spanned!(span=> #ampersand #lifetime #mutability ::cxx::private::RustVec #langle #inner #rangle)
                 }
@@ -1938,6 +1938,15 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
     }
 }
 
+// Elements of a Vec are shared with the other language in place, so unlike
+// Vec<String> there is no conversion from Vec<&str> to Vec<RustStr>.
+fn expand_extern_vec_element(ty: &Type, types: &Types, proper: bool) -> TokenStream {
+    match ty {
+        Type::Str(_) => quote!(#ty),
+        _ => expand_extern_type(ty, types, proper),
+    }
+}
+
 fn expand_extern_return_type(ret: &Option<Type>, types: &Types, proper: bool) -> TokenStream {
     let ret = match ret {
         Some(ret) if !types.needs_indirect_abi(ret) => ret,
-- 
2.43.0


From 4219e3a2004ec86e65995ba2cb760a6b63978605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 11/36] fix: reject pinned references to String and Vec

---
 syntax/check.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syntax/check.rs b/syntax/check.rs
index bdae979..89c78ac 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -244,12 +244,14 @@ fn check_type_ref(cx: &mut Check, ty: &Ref) {
         }
     }
 
-    match ty.inner {
+    match &ty.inner {
         Type::Fn(_) | Type::Void(_) => {}
         Type::Ref(_) => {
             cx.error(ty, "C++ does not allow references to references");
             return;
         }
+        Type::Ident(ident) if ty.pinned && ident.rust == RustString => {}
+        Type::RustVec(_) if ty.pinned => {}
         _ => return,
     }
 
-- 
2.43.0


From 1dc6aedcfb907d3efcd27f430aa3b27c996696ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 12/36] fix: reject slices and arrays of references

---
 syntax/check.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/syntax/check.rs b/syntax/check.rs
index 89c78ac..2cb07f7 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -272,13 +272,16 @@ fn check_type_ptr(cx: &mut Check, ty: &Ptr) {
 }
 
 fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
-    let supported = !is_unsized(cx, &ty.inner)
-        || match &ty.inner {
-            Type::Ident(ident) => {
-                cx.types.rust.contains(&ident.rust) || cx.types.aliases.contains_key(&ident.rust)
-            }
-            _ => false,
-        };
+    let supported = match &ty.inner {
+        // C++ has no pointers to references.
+        Type::Ref(_) => false,
+        Type::Ident(ident)
+            if cx.types.rust.contains(&ident.rust) || cx.types.aliases.contains_key(&ident.rust) =>
+        {
+            true
+        }
+        inner => !is_unsized(cx, inner),
+    };
 
     if !supported {
         let mutable = if ty.mutable { "mut " } else { "" };
@@ -293,7 +296,11 @@ fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
 }
 
 fn check_type_array(cx: &mut Check, ty: &Array) {
-    let supported = !is_unsized(cx, &ty.inner);
+    let supported = match &ty.inner {
+        // C++ has no arrays of references.
+        Type::Ref(_) => false,
+        inner => !is_unsized(cx, inner),
+    };
 
     if !supported {
         cx.error(ty, "unsupported array element type");
-- 
2.43.0


From cdcb775ab370f194a802e5af46b05b605847d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:28 +0000
Subject: [PATCH 13/36] fix: allow C++ functions to return a reference borrowed
 from a string slice or slice

---
 macro/src/expand.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index c1deccb..b7536c2 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -12,7 +12,7 @@ use crate::syntax::{
 };
 use crate::type_id::Crate;
 use crate::{derive, generics};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::mem;
 use syn::{parse_quote, punctuated, Generics, Lifetime, Result, Token};
@@ -458,7 +458,7 @@ fn expand_cxx_type_assert_pinned(ety: &ExternType, types: &Types) -> TokenStream
 }
 
 fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
-    let generics = &efn.generics;
+    let mut generics = efn.generics.clone();
     let receiver = efn.receiver.iter().map(|receiver| {
         let receiver_type = receiver.ty();
         quote!(_: #receiver_type)
@@ -483,7 +483,17 @@ fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
     let ret = if efn.throws {
         quote!(-> ::cxx::private::Result)
     } else {
-        expand_extern_return_type(&efn.ret, types, true)
+        let ret = expand_extern_return_type(&efn.ret, types, true);
+        match &efn.ret {
+            Some(Type::Ref(ty)) if ty.lifetime.is_none() => {
+                // The argument it borrows from might not be a reference here,
+                // if it is a &str or slice or improper ctype.
+                let lifetime = Lifetime::new("'__ret", ty.ampersand.span);
+                generics.params.insert(0, parse_quote!(#lifetime));
+                name_elided_lifetime(ret, &lifetime)
+            }
+            _ => ret,
+        }
     };
     let mut outparam = None;
     if indirect_return(efn, types) {
@@ -498,6 +508,21 @@ fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
     }
 }
 
+// `&mut T` -> `&'a mut T`
+fn name_elided_lifetime(ty: TokenStream, lifetime: &Lifetime) -> TokenStream {
+    let mut named = TokenStream::new();
+    let mut found = false;
+    for token in ty {
+        let ampersand = matches!(&token, TokenTree::Punct(punct) if punct.as_char() == '&');
+        named.extend([token]);
+        if ampersand && !found {
+            lifetime.to_tokens(&mut named);
+            found = true;
+        }
+    }
+    named
+}
+
 fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
     let doc = &efn.doc;
     let attrs = &efn.attrs;
-- 
2.43.0


From 676c5162cba137299800bf30dfd94115e1e28455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:39 +0000
Subject: [PATCH 14/36] fix: generate valid C++ for an enum discriminant of
 i64::MIN

---
 gen/src/write.rs       | 23 +++++++++++++++++------
 syntax/discriminant.rs |  3 +++
 syntax/mod.rs          |  2 +-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 8833f74..7c8f2a9 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -3,6 +3,7 @@ use crate::gen::nested::NamespaceEntries;
 use crate::gen::out::OutFile;
 use crate::gen::{builtin, include, Opt};
 use crate::syntax::atom::Atom::{self, *};
+use crate::syntax::discriminant::Discriminant;
 use crate::syntax::instantiate::{ImplKey, NamedImplKey};
 use crate::syntax::map::UnorderedMap as Map;
 use crate::syntax::primitive::{self, PrimitiveKind};
@@ -438,7 +439,9 @@ fn write_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     writeln!(out, " {{");
     for variant in &enm.variants {
         write_doc(out, "  ", &variant.doc);
-        writeln!(out, "  {} = {},", variant.name.cxx, variant.discriminant);
+        write!(out, "  {} = ", variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ",");
     }
     writeln!(out, "}};");
     writeln!(out, "#endif // {}", guard);
@@ -463,11 +466,19 @@ fn check_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     for variant in &enm.variants {
         write!(out, "static_assert(static_cast<");
         write_atom(out, repr);
-        writeln!(
-            out,
-            ">({}::{}) == {}, \"disagrees with the value in #[cxx::bridge]\");",
-            enm.name.cxx, variant.name.cxx, variant.discriminant,
-        );
+        write!(out, ">({}::{}) == ", enm.name.cxx, variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ", \"disagrees with the value in #[cxx::bridge]\");");
+    }
+}
+
+fn write_discriminant(out: &mut OutFile, discriminant: Discriminant) {
+    if discriminant == Discriminant::I64_MIN {
+        // C++ has no negative literals, and 9223372036854775808 does not fit in
+        // any signed type.
+        write!(out, "{} - 1", i64::MIN + 1);
+    } else {
+        write!(out, "{}", discriminant);
     }
 }
 
diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index 4953194..d4bbd6d 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -150,6 +150,9 @@ fn insert(set: &mut DiscriminantSet, discriminant: Discriminant) -> Result<Discr
 }
 
 impl Discriminant {
+    #[allow(dead_code)] // only used by cxx-build, not cxxbridge-macro
+    pub(crate) const I64_MIN: Self = Discriminant::neg(i64::MIN);
+
     pub(crate) const fn zero() -> Self {
         Discriminant {
             sign: Sign::Positive,
diff --git a/syntax/mod.rs b/syntax/mod.rs
index efd6f91..84223e6 100644
--- a/syntax/mod.rs
+++ b/syntax/mod.rs
@@ -5,7 +5,7 @@ pub(crate) mod attrs;
 pub(crate) mod cfg;
 pub(crate) mod check;
 pub(crate) mod derive;
-mod discriminant;
+pub(crate) mod discriminant;
 mod doc;
 pub(crate) mod error;
 pub(crate) mod file;
-- 
2.43.0


From 6459607749d81fe22522d3a4729837b0a408a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 15/36] fix: reject discriminants that do not fit in an isize
 or usize enum

---
 syntax/discriminant.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index d4bbd6d..d74ba79 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -295,7 +295,7 @@ impl Limits {
     }
 }
 
-const LIMITS: [Limits; 8] = [
+const LIMITS: [Limits; 10] = [
     Limits {
         repr: U8,
         min: Discriminant::zero(),
@@ -336,4 +336,15 @@ const LIMITS: [Limits; 8] = [
         min: Discriminant::neg(i64::MIN),
         max: Discriminant::pos(i64::MAX as u64),
     },
+    // These follow the fixed size types so that they are never inferred.
+    Limits {
+        repr: Usize,
+        min: Discriminant::zero(),
+        max: Discriminant::pos(u64::MAX),
+    },
+    Limits {
+        repr: Isize,
+        min: Discriminant::neg(i64::MIN),
+        max: Discriminant::pos(i64::MAX as u64),
+    },
 ];
-- 
2.43.0


From 3d90ccb932c950816f7d2144b027bf0d5b1fa200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:55 +0000
Subject: [PATCH 16/36] fix: evaluate cfg(feature = "...") with a hyphen in the
 feature name in cxx-build

---
 gen/build/src/cargo.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/gen/build/src/cargo.rs b/gen/build/src/cargo.rs
index 0293c5f..4ce193f 100644
--- a/gen/build/src/cargo.rs
+++ b/gen/build/src/cargo.rs
@@ -110,8 +110,8 @@ impl Ord for Lookup {
     fn cmp(&self, rhs: &Self) -> Ordering {
         self.0
             .bytes()
-            .map(CaseAgnosticByte)
-            .cmp(rhs.0.bytes().map(CaseAgnosticByte))
+            .map(EnvVarByte)
+            .cmp(rhs.0.bytes().map(EnvVarByte))
     }
 }
 
@@ -127,28 +127,38 @@ impl PartialEq for Lookup {
     fn eq(&self, rhs: &Self) -> bool {
         self.0
             .bytes()
-            .map(CaseAgnosticByte)
-            .eq(rhs.0.bytes().map(CaseAgnosticByte))
+            .map(EnvVarByte)
+            .eq(rhs.0.bytes().map(EnvVarByte))
     }
 }
 
-struct CaseAgnosticByte(u8);
+// Cargo uppercases names and replaces `-` with `_` in its environment variables.
+struct EnvVarByte(u8);
 
-impl Ord for CaseAgnosticByte {
+impl EnvVarByte {
+    fn normalized(&self) -> u8 {
+        match self.0 {
+            b'-' => b'_',
+            byte => byte.to_ascii_lowercase(),
+        }
+    }
+}
+
+impl Ord for EnvVarByte {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        self.0.to_ascii_lowercase().cmp(&rhs.0.to_ascii_lowercase())
+        self.normalized().cmp(&rhs.normalized())
     }
 }
 
-impl PartialOrd for CaseAgnosticByte {
+impl PartialOrd for EnvVarByte {
     fn partial_cmp(&self, rhs: &Self) -> Option<Ordering> {
         Some(self.cmp(rhs))
     }
 }
 
-impl Eq for CaseAgnosticByte {}
+impl Eq for EnvVarByte {}
 
-impl PartialEq for CaseAgnosticByte {
+impl PartialEq for EnvVarByte {
     fn eq(&self, rhs: &Self) -> bool {
         self.cmp(rhs) == Ordering::Equal
     }
-- 
2.43.0


From 1aba4b963245fd7be91b08a86afa989b8a102ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:55 +0000
Subject: [PATCH 17/36] fix: honor cfg attributes on include! in an extern
 block

---
 syntax/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 875e1d3..2176988 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -387,6 +387,15 @@ fn parse_foreign_mod(
                 match foreign.mac.parse_body_with(parse_include) {
                     Ok(mut include) => {
                         include.cfg = cfg.clone();
+                        attrs::parse(
+                            cx,
+                            foreign.attrs,
+                            attrs::Parser {
+                                cfg: Some(&mut include.cfg),
+                                ignore_unrecognized: true,
+                                ..Default::default()
+                            },
+                        );
                         items.push(Api::Include(include));
                     }
                     Err(err) => cx.push(err),
-- 
2.43.0


From b921ecad1b149d89cf4ccf011c0ebdeb080a21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 18/36] fix: expand nothing for bridge items whose cfg does not
 hold

---
 macro/src/cfg.rs    | 101 ++++++++++++++++++++++++++++++++++++++++++++
 macro/src/derive.rs |  59 ++++++++++++++++++--------
 macro/src/expand.rs |  76 ++++++++++++++++++++++++++++-----
 macro/src/lib.rs    |   1 +
 syntax/attrs.rs     |  13 ++++++
 syntax/cfg.rs       |   3 --
 syntax/mod.rs       |   2 +-
 7 files changed, 224 insertions(+), 31 deletions(-)
 create mode 100644 macro/src/cfg.rs

diff --git a/macro/src/cfg.rs b/macro/src/cfg.rs
new file mode 100644
index 0000000..529afc8
--- /dev/null
+++ b/macro/src/cfg.rs
@@ -0,0 +1,101 @@
+use crate::syntax::cfg::CfgExpr;
+use crate::syntax::instantiate::ImplKey;
+use crate::syntax::map::UnorderedMap;
+use crate::syntax::visit::{self, Visit};
+use crate::syntax::{Api, Type};
+use proc_macro2::TokenStream;
+use quote::{quote, ToTokens};
+
+// The #[cfg(...)] under which each generic instantiation is mentioned anywhere
+// in the bridge, which is when cxx-build generates the C++ half of it.
+pub(crate) fn impl_conditions<'a>(apis: &'a [Api]) -> UnorderedMap<ImplKey<'a>, Mentions> {
+    let mut visitor = CollectImpls {
+        mentions: UnorderedMap::new(),
+        cfgs: [&CfgExpr::Unconditional; 2],
+    };
+
+    for api in apis {
+        match api {
+            Api::Struct(strct) => {
+                for field in &strct.fields {
+                    visitor.cfgs = [&strct.cfg, &field.cfg];
+                    visitor.visit_type(&field.ty);
+                }
+            }
+            Api::CxxFunction(efn) | Api::RustFunction(efn) => {
+                visitor.cfgs = [&efn.cfg, &CfgExpr::Unconditional];
+                for arg in &efn.args {
+                    visitor.visit_type(&arg.ty);
+                }
+                if let Some(ret) = &efn.ret {
+                    visitor.visit_type(ret);
+                }
+            }
+            Api::Impl(imp) => {
+                visitor.cfgs = [&imp.cfg, &CfgExpr::Unconditional];
+                visitor.visit_type(&imp.ty);
+            }
+            Api::Include(_)
+            | Api::Enum(_)
+            | Api::CxxType(_)
+            | Api::RustType(_)
+            | Api::TypeAlias(_) => {}
+        }
+    }
+
+    visitor.mentions
+}
+
+struct CollectImpls<'a> {
+    mentions: UnorderedMap<ImplKey<'a>, Mentions>,
+    cfgs: [&'a CfgExpr; 2],
+}
+
+pub(crate) enum Mentions {
+    Unconditional,
+    Any(Vec<TokenStream>),
+}
+
+impl<'a> Visit<'a> for CollectImpls<'a> {
+    fn visit_type(&mut self, ty: &'a Type) {
+        if let Some(impl_key) = ty.impl_key() {
+            let mentions = self
+                .mentions
+                .entry(impl_key)
+                .or_insert_with(|| Mentions::Any(Vec::new()));
+            match self.cfgs {
+                [CfgExpr::Unconditional, CfgExpr::Unconditional] => {
+                    *mentions = Mentions::Unconditional;
+                }
+                [outer, inner] => {
+                    if let Mentions::Any(list) = mentions {
+                        list.push(quote!(all(#outer, #inner)));
+                    }
+                }
+            }
+        }
+        visit::visit_type(self, ty);
+    }
+}
+
+impl ToTokens for Mentions {
+    fn to_tokens(&self, tokens: &mut TokenStream) {
+        match self {
+            Mentions::Unconditional => {}
+            Mentions::Any(list) => tokens.extend(quote!(#[cfg(any(#(#list),*))])),
+        }
+    }
+}
+
+impl ToTokens for CfgExpr {
+    fn to_tokens(&self, tokens: &mut TokenStream) {
+        tokens.extend(match self {
+            CfgExpr::Unconditional => quote!(all()),
+            CfgExpr::Eq(ident, None) => quote!(#ident),
+            CfgExpr::Eq(ident, Some(value)) => quote!(#ident = #value),
+            CfgExpr::All(list) => quote!(all(#(#list),*)),
+            CfgExpr::Any(list) => quote!(any(#(#list),*)),
+            CfgExpr::Not(expr) => quote!(not(#expr)),
+        });
+    }
+}
diff --git a/macro/src/derive.rs b/macro/src/derive.rs
index c31d2d8..c7ea353 100644
--- a/macro/src/derive.rs
+++ b/macro/src/derive.rs
@@ -1,3 +1,4 @@
+use crate::syntax::attrs::OtherAttrs;
 use crate::syntax::{derive, Enum, Struct};
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
@@ -10,20 +11,22 @@ pub(crate) fn expand_struct(
 ) -> TokenStream {
     let mut expanded = TokenStream::new();
     let mut traits = Vec::new();
+    let cfg = strct.attrs.cfg();
+    let conditional = |item: TokenStream| quote!(#cfg #item);
 
     for derive in &strct.derives {
         let span = derive.span;
         match derive.what {
-            Trait::Copy => expanded.extend(struct_copy(strct, span)),
-            Trait::Clone => expanded.extend(struct_clone(strct, span)),
-            Trait::Debug => expanded.extend(struct_debug(strct, span)),
-            Trait::Default => expanded.extend(struct_default(strct, span)),
+            Trait::Copy => expanded.extend(conditional(struct_copy(strct, span))),
+            Trait::Clone => expanded.extend(conditional(struct_clone(strct, span))),
+            Trait::Debug => expanded.extend(conditional(struct_debug(strct, span))),
+            Trait::Default => expanded.extend(conditional(struct_default(strct, span))),
             Trait::Eq => traits.push(quote_spanned!(span=> ::cxx::core::cmp::Eq)),
             Trait::ExternType => unreachable!(),
             Trait::Hash => traits.push(quote_spanned!(span=> ::cxx::core::hash::Hash)),
-            Trait::Ord => expanded.extend(struct_ord(strct, span)),
+            Trait::Ord => expanded.extend(conditional(struct_ord(strct, span))),
             Trait::PartialEq => traits.push(quote_spanned!(span=> ::cxx::core::cmp::PartialEq)),
-            Trait::PartialOrd => expanded.extend(struct_partial_ord(strct, span)),
+            Trait::PartialOrd => expanded.extend(conditional(struct_partial_ord(strct, span))),
             Trait::Serialize => traits.push(quote_spanned!(span=> ::serde::Serialize)),
             Trait::Deserialize => traits.push(quote_spanned!(span=> ::serde::Deserialize)),
         }
@@ -45,19 +48,21 @@ pub(crate) fn expand_enum(enm: &Enum, actual_derives: &mut Option<TokenStream>)
     let mut has_clone = false;
     let mut has_eq = false;
     let mut has_partial_eq = false;
+    let cfg = enm.attrs.cfg();
+    let conditional = |item: TokenStream| quote!(#cfg #item);
 
     for derive in &enm.derives {
         let span = derive.span;
         match derive.what {
             Trait::Copy => {
-                expanded.extend(enum_copy(enm, span));
+                expanded.extend(conditional(enum_copy(enm, span)));
                 has_copy = true;
             }
             Trait::Clone => {
-                expanded.extend(enum_clone(enm, span));
+                expanded.extend(conditional(enum_clone(enm, span)));
                 has_clone = true;
             }
-            Trait::Debug => expanded.extend(enum_debug(enm, span)),
+            Trait::Debug => expanded.extend(conditional(enum_debug(enm, span))),
             Trait::Default => unreachable!(),
             Trait::Eq => {
                 traits.push(quote_spanned!(span=> ::cxx::core::cmp::Eq));
@@ -65,12 +70,12 @@ pub(crate) fn expand_enum(enm: &Enum, actual_derives: &mut Option<TokenStream>)
             }
             Trait::ExternType => unreachable!(),
             Trait::Hash => traits.push(quote_spanned!(span=> ::cxx::core::hash::Hash)),
-            Trait::Ord => expanded.extend(enum_ord(enm, span)),
+            Trait::Ord => expanded.extend(conditional(enum_ord(enm, span))),
             Trait::PartialEq => {
                 traits.push(quote_spanned!(span=> ::cxx::core::cmp::PartialEq));
                 has_partial_eq = true;
             }
-            Trait::PartialOrd => expanded.extend(enum_partial_ord(enm, span)),
+            Trait::PartialOrd => expanded.extend(conditional(enum_partial_ord(enm, span))),
             Trait::Serialize => traits.push(quote_spanned!(span=> ::serde::Serialize)),
             Trait::Deserialize => traits.push(quote_spanned!(span=> ::serde::Deserialize)),
         }
@@ -78,10 +83,10 @@ pub(crate) fn expand_enum(enm: &Enum, actual_derives: &mut Option<TokenStream>)
 
     let span = enm.name.rust.span();
     if !has_copy {
-        expanded.extend(enum_copy(enm, span));
+        expanded.extend(conditional(enum_copy(enm, span)));
     }
     if !has_clone {
-        expanded.extend(enum_clone(enm, span));
+        expanded.extend(conditional(enum_clone(enm, span)));
     }
     if !has_eq {
         // Required to be derived in order for the enum's "variants" to be
@@ -97,6 +102,10 @@ pub(crate) fn expand_enum(enm: &Enum, actual_derives: &mut Option<TokenStream>)
     expanded
 }
 
+fn field_cfgs(strct: &Struct) -> impl Iterator<Item = OtherAttrs> + '_ {
+    strct.fields.iter().map(|field| field.attrs.cfg())
+}
+
 fn struct_copy(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
@@ -114,6 +123,7 @@ fn struct_clone(strct: &Struct, span: Span) -> TokenStream {
     let body = if derive::contains(&strct.derives, Trait::Copy) {
         quote!(*self)
     } else {
+        let cfgs = field_cfgs(strct);
         let fields = strct.fields.iter().map(|field| &field.name.rust);
         let values = strct.fields.iter().map(|field| {
             let ident = &field.name.rust;
@@ -122,7 +132,10 @@ fn struct_clone(strct: &Struct, span: Span) -> TokenStream {
             quote_spanned!(span=> &self.#ident)
         });
         quote_spanned!(span=> #ident {
-            #(#fields: ::cxx::core::clone::Clone::clone(#values),)*
+            #(
+                #cfgs
+                #fields: ::cxx::core::clone::Clone::clone(#values),
+            )*
         })
     };
 
@@ -141,6 +154,7 @@ fn struct_debug(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
     let struct_name = ident.to_string();
+    let cfgs = field_cfgs(strct);
     let fields = strct.fields.iter().map(|field| &field.name.rust);
     let field_names = fields.clone().map(Ident::to_string);
 
@@ -148,9 +162,12 @@ fn struct_debug(strct: &Struct, span: Span) -> TokenStream {
         #[automatically_derived]
         impl #generics ::cxx::core::fmt::Debug for #ident #generics {
             fn fmt(&self, formatter: &mut ::cxx::core::fmt::Formatter<'_>) -> ::cxx::core::fmt::Result {
-                formatter.debug_struct(#struct_name)
-                    #(.field(#field_names, &self.#fields))*
-                    .finish()
+                let mut debug_struct = formatter.debug_struct(#struct_name);
+                #(
+                    #cfgs
+                    debug_struct.field(#field_names, &self.#fields);
+                )*
+                debug_struct.finish()
             }
         }
     }
@@ -159,6 +176,7 @@ fn struct_debug(strct: &Struct, span: Span) -> TokenStream {
 fn struct_default(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
+    let cfgs = field_cfgs(strct);
     let fields = strct.fields.iter().map(|field| &field.name.rust);
 
     quote_spanned! {span=>
@@ -168,6 +186,7 @@ fn struct_default(strct: &Struct, span: Span) -> TokenStream {
             fn default() -> Self {
                 #ident {
                     #(
+                        #cfgs
                         #fields: ::cxx::core::default::Default::default(),
                     )*
                 }
@@ -179,6 +198,7 @@ fn struct_default(strct: &Struct, span: Span) -> TokenStream {
 fn struct_ord(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
+    let cfgs = field_cfgs(strct);
     let fields = strct.fields.iter().map(|field| &field.name.rust);
 
     quote_spanned! {span=>
@@ -186,6 +206,7 @@ fn struct_ord(strct: &Struct, span: Span) -> TokenStream {
         impl #generics ::cxx::core::cmp::Ord for #ident #generics {
             fn cmp(&self, other: &Self) -> ::cxx::core::cmp::Ordering {
                 #(
+                    #cfgs
                     match ::cxx::core::cmp::Ord::cmp(&self.#fields, &other.#fields) {
                         ::cxx::core::cmp::Ordering::Equal => {}
                         ordering => return ordering,
@@ -206,9 +227,11 @@ fn struct_partial_ord(strct: &Struct, span: Span) -> TokenStream {
             ::cxx::core::option::Option::Some(::cxx::core::cmp::Ord::cmp(self, other))
         }
     } else {
+        let cfgs = field_cfgs(strct);
         let fields = strct.fields.iter().map(|field| &field.name.rust);
         quote! {
             #(
+                #cfgs
                 match ::cxx::core::cmp::PartialOrd::partial_cmp(&self.#fields, &other.#fields) {
                     ::cxx::core::option::Option::Some(::cxx::core::cmp::Ordering::Equal) => {}
                     ordering => return ordering,
@@ -256,9 +279,11 @@ fn enum_clone(enm: &Enum, span: Span) -> TokenStream {
 fn enum_debug(enm: &Enum, span: Span) -> TokenStream {
     let ident = &enm.name.rust;
     let variants = enm.variants.iter().map(|variant| {
+        let cfg = variant.attrs.cfg();
         let variant = &variant.name.rust;
         let name = variant.to_string();
         quote_spanned! {span=>
+            #cfg
             #ident::#variant => formatter.write_str(#name),
         }
     });
diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index b7536c2..52f95d7 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -56,7 +56,10 @@ fn expand(ffi: Module, doc: Doc, attrs: OtherAttrs, apis: &[Api], types: &Types)
     for api in apis {
         if let Api::RustType(ety) = api {
             expanded.extend(expand_rust_type_import(ety));
-            hidden.extend(expand_rust_type_assert_unpin(ety, types));
+            hidden.extend(conditional(
+                &ety.attrs.cfg(),
+                expand_rust_type_assert_unpin(ety, types),
+            ));
         }
     }
 
@@ -65,7 +68,10 @@ fn expand(ffi: Module, doc: Doc, attrs: OtherAttrs, apis: &[Api], types: &Types)
             Api::Include(_) | Api::Impl(_) => {}
             Api::Struct(strct) => {
                 expanded.extend(expand_struct(strct));
-                hidden.extend(expand_struct_operators(strct));
+                hidden.extend(conditional(
+                    &strct.attrs.cfg(),
+                    expand_struct_operators(strct),
+                ));
                 forbid.extend(expand_struct_forbid_drop(strct));
             }
             Api::Enum(enm) => expanded.extend(expand_enum(enm)),
@@ -73,7 +79,10 @@ fn expand(ffi: Module, doc: Doc, attrs: OtherAttrs, apis: &[Api], types: &Types)
                 let ident = &ety.name.rust;
                 if !types.structs.contains_key(ident) && !types.enums.contains_key(ident) {
                     expanded.extend(expand_cxx_type(ety));
-                    hidden.extend(expand_cxx_type_assert_pinned(ety, types));
+                    hidden.extend(conditional(
+                        &ety.attrs.cfg(),
+                        expand_cxx_type_assert_pinned(ety, types),
+                    ));
                 }
             }
             Api::CxxFunction(efn) => {
@@ -81,7 +90,10 @@ fn expand(ffi: Module, doc: Doc, attrs: OtherAttrs, apis: &[Api], types: &Types)
             }
             Api::RustType(ety) => {
                 expanded.extend(expand_rust_type_impl(ety));
-                hidden.extend(expand_rust_type_layout(ety, types));
+                hidden.extend(conditional(
+                    &ety.attrs.cfg(),
+                    expand_rust_type_layout(ety, types),
+                ));
             }
             Api::RustFunction(efn) => hidden.extend(expand_rust_function_shim(efn, types)),
             Api::TypeAlias(alias) => {
@@ -91,25 +103,39 @@ fn expand(ffi: Module, doc: Doc, attrs: OtherAttrs, apis: &[Api], types: &Types)
         }
     }
 
+    let impl_cfgs = crate::cfg::impl_conditions(apis);
     for (impl_key, &explicit_impl) in &types.impls {
+        let cfg = &impl_cfgs[impl_key];
         match *impl_key {
             ImplKey::RustBox(ident) => {
-                hidden.extend(expand_rust_box(ident, types, explicit_impl));
+                hidden.extend(conditional(cfg, expand_rust_box(ident, types, explicit_impl)));
             }
             ImplKey::RustVec(ident) => {
-                hidden.extend(expand_rust_vec(ident, types, explicit_impl));
+                hidden.extend(conditional(cfg, expand_rust_vec(ident, types, explicit_impl)));
             }
             ImplKey::UniquePtr(ident) => {
-                expanded.extend(expand_unique_ptr(ident, types, explicit_impl));
+                expanded.extend(conditional(
+                    cfg,
+                    expand_unique_ptr(ident, types, explicit_impl),
+                ));
             }
             ImplKey::SharedPtr(ident) => {
-                expanded.extend(expand_shared_ptr(ident, types, explicit_impl));
+                expanded.extend(conditional(
+                    cfg,
+                    expand_shared_ptr(ident, types, explicit_impl),
+                ));
             }
             ImplKey::WeakPtr(ident) => {
-                expanded.extend(expand_weak_ptr(ident, types, explicit_impl));
+                expanded.extend(conditional(
+                    cfg,
+                    expand_weak_ptr(ident, types, explicit_impl),
+                ));
             }
             ImplKey::CxxVector(ident) => {
-                expanded.extend(expand_cxx_vector(ident, explicit_impl, types));
+                expanded.extend(conditional(
+                    cfg,
+                    expand_cxx_vector(ident, explicit_impl, types),
+                ));
             }
         }
     }
@@ -154,10 +180,25 @@ fn expand(ffi: Module, doc: Doc, attrs: OtherAttrs, apis: &[Api], types: &Types)
     }
 }
 
+// Additional items which are only to be expanded if cfg holds.
+fn conditional(cfg: &impl ToTokens, items: TokenStream) -> TokenStream {
+    let cfg = cfg.to_token_stream();
+    if cfg.is_empty() || items.is_empty() {
+        return items;
+    }
+    quote! {
+        #cfg
+        const _: () = {
+            #items
+        };
+    }
+}
+
 fn expand_struct(strct: &Struct) -> TokenStream {
     let ident = &strct.name.rust;
     let doc = &strct.doc;
     let attrs = &strct.attrs;
+    let cfg = attrs.cfg();
     let generics = &strct.generics;
     let type_id = type_id(&strct.name);
     let fields = strct.fields.iter().map(|field| {
@@ -187,6 +228,7 @@ fn expand_struct(strct: &Struct) -> TokenStream {
         #[repr(C)]
         #struct_def
 
+        #cfg
         #[automatically_derived]
         unsafe impl #generics ::cxx::ExternType for #ident #generics {
             #[allow(unused_attributes)] // incorrect lint
@@ -308,11 +350,13 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
 
 fn expand_struct_forbid_drop(strct: &Struct) -> TokenStream {
     let ident = &strct.name.rust;
+    let cfg = strct.attrs.cfg();
     let generics = &strct.generics;
     let span = ident.span();
     let impl_token = Token![impl](strct.visibility.span);
 
     quote_spanned! {span=>
+        #cfg
         #[automatically_derived]
         #impl_token #generics self::Drop for super::#ident #generics {}
     }
@@ -322,6 +366,7 @@ fn expand_enum(enm: &Enum) -> TokenStream {
     let ident = &enm.name.rust;
     let doc = &enm.doc;
     let attrs = &enm.attrs;
+    let cfg = attrs.cfg();
     let repr = &enm.repr;
     let type_id = type_id(&enm.name);
     let variants = enm.variants.iter().map(|variant| {
@@ -360,12 +405,14 @@ fn expand_enum(enm: &Enum) -> TokenStream {
         #[repr(transparent)]
         #enum_def
 
+        #cfg
         #[automatically_derived]
         #[allow(non_upper_case_globals)]
         impl #ident {
             #(#variants)*
         }
 
+        #cfg
         #[automatically_derived]
         unsafe impl ::cxx::ExternType for #ident {
             #[allow(unused_attributes)] // incorrect lint
@@ -382,6 +429,7 @@ fn expand_cxx_type(ety: &ExternType) -> TokenStream {
     let ident = &ety.name.rust;
     let doc = &ety.doc;
     let attrs = &ety.attrs;
+    let cfg = attrs.cfg();
     let generics = &ety.generics;
     let type_id = type_id(&ety.name);
 
@@ -409,6 +457,7 @@ fn expand_cxx_type(ety: &ExternType) -> TokenStream {
         #[repr(C)]
         #extern_type_def
 
+        #cfg
         #[automatically_derived]
         unsafe impl #generics ::cxx::ExternType for #ident #generics {
             #[allow(unused_attributes)] // incorrect lint
@@ -797,7 +846,9 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
                 };
                 &elided_generics
             };
+            let cfg = attrs.cfg();
             quote_spanned! {ident.span()=>
+                #cfg
                 #[automatically_derived]
                 impl #generics #receiver_ident #receiver_generics {
                     #doc
@@ -850,20 +901,24 @@ fn expand_function_pointer_trampoline(
 
 fn expand_rust_type_import(ety: &ExternType) -> TokenStream {
     let ident = &ety.name.rust;
+    let cfg = ety.attrs.cfg();
     let span = ident.span();
 
     quote_spanned! {span=>
+        #cfg
         use super::#ident;
     }
 }
 
 fn expand_rust_type_impl(ety: &ExternType) -> TokenStream {
     let ident = &ety.name.rust;
+    let cfg = ety.attrs.cfg();
     let generics = &ety.generics;
     let span = ident.span();
     let unsafe_impl = quote_spanned!(ety.type_token.span=> unsafe impl);
 
     let mut impls = quote_spanned! {span=>
+        #cfg
         #[automatically_derived]
         #[doc(hidden)]
         #unsafe_impl #generics ::cxx::private::RustType for #ident #generics {}
@@ -874,6 +929,7 @@ fn expand_rust_type_impl(ety: &ExternType) -> TokenStream {
             let type_id = type_id(&ety.name);
             let span = derive.span;
             impls.extend(quote_spanned! {span=>
+                #cfg
                 #[automatically_derived]
                 unsafe impl #generics ::cxx::ExternType for #ident #generics {
                     #[allow(unused_attributes)] // incorrect lint
diff --git a/macro/src/lib.rs b/macro/src/lib.rs
index 4f0de01..3bd07f1 100644
--- a/macro/src/lib.rs
+++ b/macro/src/lib.rs
@@ -20,6 +20,7 @@
     clippy::uninlined_format_args
 )]
 
+mod cfg;
 mod derive;
 mod expand;
 mod generics;
diff --git a/syntax/attrs.rs b/syntax/attrs.rs
index 894b82b..f69c28d 100644
--- a/syntax/attrs.rs
+++ b/syntax/attrs.rs
@@ -293,6 +293,19 @@ impl OtherAttrs {
     pub(crate) fn extend(&mut self, other: Self) {
         self.0.extend(other.0);
     }
+
+    // Only the cfg attributes, for use on additional items which are expanded
+    // from the same input.
+    #[allow(dead_code)] // only used by cxxbridge-macro, not cxx-build
+    pub(crate) fn cfg(&self) -> Self {
+        let is_cfg = |attr: &&Attribute| attr.path().is_ident("cfg");
+        OtherAttrs(self.0.iter().filter(is_cfg).cloned().collect())
+    }
+
+    #[allow(dead_code)] // only used by cxxbridge-macro, not cxx-build
+    pub(crate) fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
 }
 
 impl ToTokens for OtherAttrs {
diff --git a/syntax/cfg.rs b/syntax/cfg.rs
index 070813e..83511d7 100644
--- a/syntax/cfg.rs
+++ b/syntax/cfg.rs
@@ -6,12 +6,9 @@ use syn::{parenthesized, token, Attribute, LitStr, Token};
 #[derive(Clone)]
 pub(crate) enum CfgExpr {
     Unconditional,
-    #[allow(dead_code)] // only used by cxx-build, not cxxbridge-macro
     Eq(Ident, Option<LitStr>),
     All(Vec<CfgExpr>),
-    #[allow(dead_code)] // only used by cxx-build, not cxxbridge-macro
     Any(Vec<CfgExpr>),
-    #[allow(dead_code)] // only used by cxx-build, not cxxbridge-macro
     Not(Box<CfgExpr>),
 }
 
diff --git a/syntax/mod.rs b/syntax/mod.rs
index 84223e6..3c53661 100644
--- a/syntax/mod.rs
+++ b/syntax/mod.rs
@@ -29,7 +29,7 @@ mod tokens;
 mod toposort;
 pub(crate) mod trivial;
 pub(crate) mod types;
-mod visit;
+pub(crate) mod visit;
 
 use self::attrs::OtherAttrs;
 use self::cfg::CfgExpr;
-- 
2.43.0


From 4e296eea56575977210569186edd090c09d87f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 19/36] fix: pass structs with conditional fields the same way
 on both sides

The macro does not evaluate #[cfg(...)] and so takes all fields into account
when it decides whether a struct is passed by value or by pointer. cxx-build
and cxxbridge first removed the fields which do not apply, so a struct like
`struct S<'a> { x: &'a u32, #[cfg(feature = "f")] s: String }` was passed by
pointer by Rust and by value by C++ when the feature was off.
---
 gen/src/cfg.rs  | 27 ++++++++++++++++++++++++++-
 gen/src/mod.rs  |  9 +++------
 syntax/mod.rs   |  3 +++
 syntax/parse.rs |  1 +
 syntax/types.rs |  5 +++++
 5 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/gen/src/cfg.rs b/gen/src/cfg.rs
index adab6e5..f442d36 100644
--- a/gen/src/cfg.rs
+++ b/gen/src/cfg.rs
@@ -1,7 +1,7 @@
 use crate::gen::{CfgEvaluator, CfgResult};
 use crate::syntax::cfg::CfgExpr;
 use crate::syntax::report::Errors;
-use crate::syntax::Api;
+use crate::syntax::{Api, NamedType, Type, Types};
 use quote::quote;
 use std::collections::BTreeSet as Set;
 use syn::{Error, LitStr};
@@ -17,6 +17,31 @@ impl CfgEvaluator for UnsupportedCfgEvaluator {
     }
 }
 
+// Must precede cfg::strip, in order to arrive at the same calling convention
+// for structs with conditional fields as the macro, which sees all fields.
+pub(super) fn determine_indirect_abi(apis: &mut [Api]) {
+    let ref mut errors = Errors::new();
+    let types = Types::collect(errors, apis);
+    if errors.propagate().is_err() {
+        return; // rejected by the macro
+    }
+
+    let mut indirect = Vec::new();
+    for api in &*apis {
+        if let Api::Struct(strct) = api {
+            let ty = Type::Ident(NamedType::new(strct.name.rust.clone()));
+            indirect.push(types.needs_indirect_abi(&ty));
+        }
+    }
+
+    let mut indirect = indirect.into_iter();
+    for api in apis {
+        if let Api::Struct(strct) = api {
+            strct.indirect_abi = indirect.next().unwrap();
+        }
+    }
+}
+
 pub(super) fn strip(
     cx: &mut Errors,
     cfg_errors: &mut Set<String>,
diff --git a/gen/src/mod.rs b/gen/src/mod.rs
index c75541f..e6b3c62 100644
--- a/gen/src/mod.rs
+++ b/gen/src/mod.rs
@@ -162,12 +162,9 @@ pub(super) fn generate(syntax: File, opt: &Opt) -> Result<GeneratedCode> {
         if cfg::eval(errors, cfg_errors, opt.cfg_evaluator.as_ref(), &cfg) {
             let ref namespace = bridge.namespace;
             let trusted = bridge.unsafety.is_some();
-            apis.extend(syntax::parse_items(
-                errors,
-                bridge.content,
-                trusted,
-                namespace,
-            ));
+            let mut items = syntax::parse_items(errors, bridge.content, trusted, namespace);
+            cfg::determine_indirect_abi(&mut items);
+            apis.extend(items);
         }
     }
 
diff --git a/syntax/mod.rs b/syntax/mod.rs
index 3c53661..6c941df 100644
--- a/syntax/mod.rs
+++ b/syntax/mod.rs
@@ -116,6 +116,9 @@ pub(crate) struct Struct {
     pub generics: Lifetimes,
     pub brace_token: Brace,
     pub fields: Vec<Var>,
+    // The macro does not evaluate #[cfg(...)], so a field decides about how the
+    // struct is passed by value even in configurations that leave it out.
+    pub indirect_abi: bool,
 }
 
 pub(crate) struct Enum {
diff --git a/syntax/parse.rs b/syntax/parse.rs
index 2176988..7f33f26 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -184,6 +184,7 @@ fn parse_struct(cx: &mut Errors, mut item: ItemStruct, namespace: &Namespace) ->
         generics,
         brace_token,
         fields,
+        indirect_abi: false,
     }))
 }
 
diff --git a/syntax/types.rs b/syntax/types.rs
index e972ee4..b71633a 100644
--- a/syntax/types.rs
+++ b/syntax/types.rs
@@ -250,6 +250,11 @@ impl<'a> Types<'a> {
             | Type::Fn(_)
             | Type::SliceRef(_) => false,
             Type::Array(_) => true,
+            Type::Ident(ident)
+                if (self.structs.get(&ident.rust)).is_some_and(|strct| strct.indirect_abi) =>
+            {
+                true
+            }
             _ => !self.is_guaranteed_pod(ty) || self.is_considered_improper_ctype(ty),
         }
     }
-- 
2.43.0


From e51012daf12c5a2fd0b08fb987ec4edddb0fb4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:38 +0000
Subject: [PATCH 20/36] fix: assert the size and alignment of unique_ptr to the
 library's own types

---
 src/cxx.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxx.cc b/src/cxx.cc
index 02e0d68..1679af9 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -585,6 +585,8 @@ void destroy(T *ptr) {
 } // namespace
 
 extern "C" {
+static_assert(sizeof(std::unique_ptr<std::string>) == sizeof(void *), "");
+static_assert(alignof(std::unique_ptr<std::string>) == alignof(void *), "");
 void cxxbridge1$unique_ptr$std$string$null(
     std::unique_ptr<std::string> *ptr) noexcept {
   new (ptr) std::unique_ptr<std::string>();
@@ -627,6 +629,10 @@ static_assert(sizeof(std::string) <= kMaxExpectedWordsInString * sizeof(void *),
       std::vector<CXX_TYPE> *s, std::size_t pos) noexcept {                    \
     return &(*s)[pos];                                                         \
   }                                                                            \
+  static_assert(                                                               \
+      sizeof(std::unique_ptr<std::vector<CXX_TYPE>>) == sizeof(void *), "");   \
+  static_assert(                                                               \
+      alignof(std::unique_ptr<std::vector<CXX_TYPE>>) == alignof(void *), ""); \
   void cxxbridge1$unique_ptr$std$vector$##RUST_TYPE##$null(                    \
       std::unique_ptr<std::vector<CXX_TYPE>> *ptr) noexcept {                  \
     new (ptr) std::unique_ptr<std::vector<CXX_TYPE>>();                        \
-- 
2.43.0


From 5f43b7c289ad2512398678b5443f0e7e068c8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 21/36] fix: drop the r# of raw identifiers in C++ names and
 symbols

---
 gen/src/write.rs | 9 +++++----
 syntax/names.rs  | 2 +-
 syntax/symbol.rs | 3 ++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 7c8f2a9..63f00a0 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -15,6 +15,7 @@ use crate::syntax::{
     Type, TypeAlias, Types, Var,
 };
 use proc_macro2::Ident;
+use syn::ext::IdentExt as _;
 
 pub(super) fn gen(apis: &[Api], types: &Types, opt: &Opt, header: bool) -> Vec<u8> {
     let mut out_file = OutFile::new(header, opt, types);
@@ -794,12 +795,12 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
     write!(out, "  ");
     write_return_type(out, &efn.ret);
     match &efn.receiver {
-        None => write!(out, "(*{}$)(", efn.name.rust),
+        None => write!(out, "(*{}$)(", efn.name.rust.unraw()),
         Some(receiver) => write!(
             out,
             "({}::*{}$)(",
             out.types.resolve(&receiver.ty).name.to_fully_qualified(),
-            efn.name.rust,
+            efn.name.rust.unraw(),
         ),
     }
     for (i, arg) in efn.args.iter().enumerate() {
@@ -857,8 +858,8 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
         _ => {}
     }
     match &efn.receiver {
-        None => write!(out, "{}$(", efn.name.rust),
-        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust),
+        None => write!(out, "{}$(", efn.name.rust.unraw()),
+        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust.unraw()),
     }
     for (i, arg) in efn.args.iter().enumerate() {
         if i > 0 {
diff --git a/syntax/names.rs b/syntax/names.rs
index 7afa5a9..3c6f34b 100644
--- a/syntax/names.rs
+++ b/syntax/names.rs
@@ -40,7 +40,7 @@ impl ForeignName {
         // non-alphanumeric characters (`operator++`).
         match Ident::parse_any.parse_str(text) {
             Ok(ident) => {
-                let text = ident.to_string();
+                let text = ident.unraw().to_string();
                 Ok(ForeignName { text })
             }
             Err(err) => Err(Error::new(span, err)),
diff --git a/syntax/symbol.rs b/syntax/symbol.rs
index f9fd32c..24eb85b 100644
--- a/syntax/symbol.rs
+++ b/syntax/symbol.rs
@@ -3,6 +3,7 @@ use crate::syntax::{ForeignName, Pair};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use std::fmt::{self, Display, Write};
+use syn::ext::IdentExt;
 
 // A mangled symbol consisting of segments separated by '$'.
 // For example: cxxbridge1$string$new
@@ -58,7 +59,7 @@ impl Segment for usize {
 
 impl Segment for Ident {
     fn write(&self, symbol: &mut Symbol) {
-        symbol.push(&self);
+        symbol.push(&self.unraw());
     }
 }
 
-- 
2.43.0


From a60a142b5697d4d1d7c19c397eec4579fa9eca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 22/36] fix: format raw identifiers in derived Debug impls
 without r#

---
 macro/src/derive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/macro/src/derive.rs b/macro/src/derive.rs
index c7ea353..4d85de4 100644
--- a/macro/src/derive.rs
+++ b/macro/src/derive.rs
@@ -1,7 +1,8 @@
 use crate::syntax::attrs::OtherAttrs;
 use crate::syntax::{derive, Enum, Struct};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt as _;
 
 pub(crate) use crate::syntax::derive::*;
 
@@ -153,10 +154,10 @@ fn struct_clone(strct: &Struct, span: Span) -> TokenStream {
 fn struct_debug(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
-    let struct_name = ident.to_string();
+    let struct_name = ident.unraw().to_string();
     let cfgs = field_cfgs(strct);
     let fields = strct.fields.iter().map(|field| &field.name.rust);
-    let field_names = fields.clone().map(Ident::to_string);
+    let field_names = fields.clone().map(|field| field.unraw().to_string());
 
     quote_spanned! {span=>
         #[automatically_derived]
@@ -281,13 +282,13 @@ fn enum_debug(enm: &Enum, span: Span) -> TokenStream {
     let variants = enm.variants.iter().map(|variant| {
         let cfg = variant.attrs.cfg();
         let variant = &variant.name.rust;
-        let name = variant.to_string();
+        let name = variant.unraw().to_string();
         quote_spanned! {span=>
             #cfg
             #ident::#variant => formatter.write_str(#name),
         }
     });
-    let fallback = format!("{}({{}})", ident);
+    let fallback = format!("{}({{}})", ident.unraw());
 
     quote_spanned! {span=>
         #[automatically_derived]
-- 
2.43.0


From 5264e6c6508afe5a184adfde1bb34331fb8c09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 23/36] fix: declare std::hash of shared structs in the
 generated header

---
 gen/src/write.rs | 25 +++++++++++++++++++------
 syntax/mangle.rs |  4 ++--
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 63f00a0..1dbbd08 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -173,10 +173,10 @@ fn write_functions<'a>(out: &mut OutFile<'a>, apis: &'a [Api]) {
                 _ => {}
             }
         }
-
-        write_std_specializations(out, apis);
     }
 
+    write_std_specializations(out, apis);
+
     for api in apis {
         match api {
             Api::Struct(strct) => write_struct_operators(out, strct),
@@ -201,20 +201,33 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                 out.include.cstddef = true;
                 out.include.functional = true;
                 let qualified = strct.name.to_fully_qualified();
+                let guard = format!("CXXBRIDGE1_HASH_{}", strct.name.to_symbol());
+                writeln!(out, "#ifndef {}", guard);
+                writeln!(out, "#define {}", guard);
                 writeln!(out, "template <> struct hash<{}> {{", qualified);
                 writeln!(
                     out,
-                    "  ::std::size_t operator()({} const &self) const noexcept {{",
+                    "  ::std::size_t operator()({} const &self) const noexcept;",
+                    qualified,
+                );
+                writeln!(out, "}};");
+                writeln!(out, "#endif // {}", guard);
+                if out.header {
+                    continue;
+                }
+                out.next_section();
+                writeln!(
+                    out,
+                    "::std::size_t hash<{0}>::operator()({0} const &self) const noexcept {{",
                     qualified,
                 );
                 let link_name = mangle::operator(&strct.name, "hash");
-                write!(out, "    return ::");
+                write!(out, "  return ::");
                 for name in &strct.name.namespace {
                     write!(out, "{}::", name);
                 }
                 writeln!(out, "{}(self);", link_name);
-                writeln!(out, "  }}");
-                writeln!(out, "}};");
+                writeln!(out, "}}");
             }
         }
     }
diff --git a/syntax/mangle.rs b/syntax/mangle.rs
index 6f01965..3fa9381 100644
--- a/syntax/mangle.rs
+++ b/syntax/mangle.rs
@@ -65,10 +65,10 @@
 //             - CXXBRIDGE1_PANIC
 //             - CXXBRIDGE1_RUST_STRING
 //          defining characteristics:
-//             - NAME does not begin with STRUCT or ENUM
+//             - NAME does not begin with STRUCT or ENUM or HASH
 //
 //   (B) Guard around user-defined type.
-//          pattern:  {CXXBRIDGE} _ {STRUCT or ENUM} _ {NAMESPACE...} $ {TYPE}
+//          pattern:  {CXXBRIDGE} _ {STRUCT or ENUM or HASH} _ {NAMESPACE...} $ {TYPE}
 //          examples:
 //             - CXXBRIDGE1_STRUCT_org$rust$Struct
 //             - CXXBRIDGE1_ENUM_Enabled
-- 
2.43.0


From b4cdcb8a3140918ae9a71e07cb28bda1ec54c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 24/36] fix: include the standard headers that the emitted
 library parts name

rust::String and rust::Str name std::size_t and rust::Slice names std::swap, but
a bridge whose generated code contains them only included <cstddef> or <utility>
if some other feature happened to ask for it.
---
 gen/src/builtin.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen/src/builtin.rs b/gen/src/builtin.rs
index a7dbc2d..de91261 100644
--- a/gen/src/builtin.rs
+++ b/gen/src/builtin.rs
@@ -52,12 +52,14 @@ pub(super) fn write(out: &mut OutFile) {
 
     if builtin.rust_string {
         include.array = true;
+        include.cstddef = true;
         include.cstdint = true;
         include.string = true;
     }
 
     if builtin.rust_str {
         include.array = true;
+        include.cstddef = true;
         include.cstdint = true;
         include.string = true;
         include.string_view = true;
@@ -90,6 +92,7 @@ pub(super) fn write(out: &mut OutFile) {
         include.ranges = true;
         include.stdexcept = true;
         include.type_traits = true;
+        include.utility = true;
         builtin.friend_impl = true;
         builtin.layout = true;
         builtin.panic = true;
-- 
2.43.0


From daae263259ea3466f45e86b5f16f91b1120912a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 25/36] fix: allow an argument of a fallible extern "Rust"
 function to be called error

---
 gen/src/write.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 1dbbd08..37ee3e7 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -1133,7 +1133,7 @@ fn write_rust_function_shim_impl(
     }
     if sig.throws {
         out.builtin.ptr_len = true;
-        write!(out, "::rust::repr::PtrLen error$ = ");
+        write!(out, "::rust::repr::PtrLen throw$ = ");
     }
     write!(out, "{}(", invoke);
     let mut needs_comma = false;
@@ -1181,8 +1181,8 @@ fn write_rust_function_shim_impl(
     writeln!(out, ";");
     if sig.throws {
         out.builtin.rust_error = true;
-        writeln!(out, "  if (error$.ptr) {{");
-        writeln!(out, "    throw ::rust::impl<::rust::Error>::error(error$);");
+        writeln!(out, "  if (throw$.ptr) {{");
+        writeln!(out, "    throw ::rust::impl<::rust::Error>::error(throw$);");
         writeln!(out, "  }}");
     }
     if indirect_return {
-- 
2.43.0


From 3691e9e03ac9bb4a06504042bb24c538f1280caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 26/36] fix: allow extern "Rust" functions named like the
 operator shims of a struct

---
 macro/src/expand.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 52f95d7..b658598 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -251,7 +251,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
         match derive.what {
             Trait::PartialEq => {
                 let link_name = mangle::operator(&strct.name, "eq");
-                let local_name = format_ident!("__operator_eq_{}", strct.name.rust);
+                let local_name = format_ident!("__cxxbridge_operator_eq_{}", strct.name.rust);
                 let prevent_unwind_label = format!("::{} as PartialEq>::eq", strct.name.rust);
                 operators.extend(quote_spanned! {span=>
                     #[doc(hidden)]
@@ -264,7 +264,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
 
                 if !derive::contains(&strct.derives, Trait::Eq) {
                     let link_name = mangle::operator(&strct.name, "ne");
-                    let local_name = format_ident!("__operator_ne_{}", strct.name.rust);
+                    let local_name = format_ident!("__cxxbridge_operator_ne_{}", strct.name.rust);
                     let prevent_unwind_label = format!("::{} as PartialEq>::ne", strct.name.rust);
                     operators.extend(quote_spanned! {span=>
                         #[doc(hidden)]
@@ -278,7 +278,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
             }
             Trait::PartialOrd => {
                 let link_name = mangle::operator(&strct.name, "lt");
-                let local_name = format_ident!("__operator_lt_{}", strct.name.rust);
+                let local_name = format_ident!("__cxxbridge_operator_lt_{}", strct.name.rust);
                 let prevent_unwind_label = format!("::{} as PartialOrd>::lt", strct.name.rust);
                 operators.extend(quote_spanned! {span=>
                     #[doc(hidden)]
@@ -290,7 +290,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                 });
 
                 let link_name = mangle::operator(&strct.name, "le");
-                let local_name = format_ident!("__operator_le_{}", strct.name.rust);
+                let local_name = format_ident!("__cxxbridge_operator_le_{}", strct.name.rust);
                 let prevent_unwind_label = format!("::{} as PartialOrd>::le", strct.name.rust);
                 operators.extend(quote_spanned! {span=>
                     #[doc(hidden)]
@@ -303,7 +303,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
 
                 if !derive::contains(&strct.derives, Trait::Ord) {
                     let link_name = mangle::operator(&strct.name, "gt");
-                    let local_name = format_ident!("__operator_gt_{}", strct.name.rust);
+                    let local_name = format_ident!("__cxxbridge_operator_gt_{}", strct.name.rust);
                     let prevent_unwind_label = format!("::{} as PartialOrd>::gt", strct.name.rust);
                     operators.extend(quote_spanned! {span=>
                         #[doc(hidden)]
@@ -315,7 +315,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     });
 
                     let link_name = mangle::operator(&strct.name, "ge");
-                    let local_name = format_ident!("__operator_ge_{}", strct.name.rust);
+                    let local_name = format_ident!("__cxxbridge_operator_ge_{}", strct.name.rust);
                     let prevent_unwind_label = format!("::{} as PartialOrd>::ge", strct.name.rust);
                     operators.extend(quote_spanned! {span=>
                         #[doc(hidden)]
@@ -329,7 +329,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
             }
             Trait::Hash => {
                 let link_name = mangle::operator(&strct.name, "hash");
-                let local_name = format_ident!("__operator_hash_{}", strct.name.rust);
+                let local_name = format_ident!("__cxxbridge_operator_hash_{}", strct.name.rust);
                 let prevent_unwind_label = format!("::{} as Hash>::hash", strct.name.rust);
                 operators.extend(quote_spanned! {span=>
                     #[doc(hidden)]
-- 
2.43.0


From a42f692013125cc7016d2c49456a4b88519c92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 27/36] fix: reject member names that break the definition of a
 C++ class

---
 syntax/check.rs | 54 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/syntax/check.rs b/syntax/check.rs
index 2cb07f7..5003fef 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -3,7 +3,8 @@ use crate::syntax::report::Errors;
 use crate::syntax::visit::{self, Visit};
 use crate::syntax::{
     error, ident, trivial, Api, Array, Enum, ExternFn, ExternType, Impl, Lang, Lifetimes,
-    NamedType, Ptr, Receiver, Ref, Signature, SliceRef, Struct, Trait, Ty1, Type, TypeAlias, Types,
+    NamedType, Pair, Ptr, Receiver, Ref, Signature, SliceRef, Struct, Trait, Ty1, Type, TypeAlias,
+    Types,
 };
 use proc_macro2::{Delimiter, Group, Ident, TokenStream};
 use quote::{quote, ToTokens};
@@ -276,7 +277,8 @@ fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
         // C++ has no pointers to references.
         Type::Ref(_) => false,
         Type::Ident(ident)
-            if cx.types.rust.contains(&ident.rust) || cx.types.aliases.contains_key(&ident.rust) =>
+            if cx.types.rust.contains(&ident.rust)
+                || cx.types.aliases.contains_key(&ident.rust) =>
         {
             true
         }
@@ -371,6 +373,15 @@ fn check_api_struct(cx: &mut Check, strct: &Struct) {
             let msg = format!("using {} by value is not supported", desc);
             cx.error(field, msg);
         }
+
+        if !cx.types.cxx.contains(&name.rust) {
+            check_reserved_member(cx, name, &field.name);
+            check_specifier_name(cx, &field.name);
+        }
+    }
+
+    if name.cxx == *"IsRelocatable" && !cx.types.cxx.contains(&name.rust) {
+        cx.error(&name.rust, "reserved name");
     }
 }
 
@@ -396,6 +407,9 @@ fn check_api_enum(cx: &mut Check, enm: &Enum) {
 
 fn check_api_type(cx: &mut Check, ety: &ExternType) {
     check_reserved_name(cx, &ety.name.rust);
+    if ety.lang == Lang::Rust && ety.name.cxx == *"layout" {
+        cx.error(&ety.name.rust, "reserved name");
+    }
     check_lifetimes(cx, &ety.generics);
 
     for derive in &ety.derives {
@@ -481,6 +495,8 @@ fn check_api_fn(cx: &mut Check, efn: &ExternFn) {
                     receiver.ty.rust,
                 ),
             );
+        } else if !cx.types.cxx.contains(&receiver.ty.rust) {
+            check_reserved_member(cx, &cx.types.resolve(&receiver.ty).name, &efn.name);
         }
     }
 
@@ -636,6 +652,40 @@ fn check_reserved_name(cx: &mut Check, ident: &Ident) {
     }
 }
 
+// Members of a class whose definition is emitted by the C++ code generator.
+fn check_reserved_member(cx: &mut Check, class: &Pair, member: &Pair) {
+    if member.cxx == *class.cxx.to_string() {
+        cx.error(
+            &member.rust,
+            "C++ does not allow this member to have the same name as its class",
+        );
+    } else if member.cxx == *"IsRelocatable" && cx.types.structs.contains_key(&class.rust) {
+        cx.error(&member.rust, "reserved name");
+    }
+}
+
+// In `T volatile;` C++ takes the name to be part of the type, and declares no
+// field at all.
+fn check_specifier_name(cx: &mut Check, field: &Pair) {
+    const SPECIFIERS: &[&str] = &[
+        "const",
+        "constexpr",
+        "extern",
+        "friend",
+        "inline",
+        "mutable",
+        "register",
+        "static",
+        "thread_local",
+        "typedef",
+        "volatile",
+    ];
+
+    if SPECIFIERS.iter().any(|specifier| field.cxx == **specifier) {
+        cx.error(&field.rust, "field name is a keyword in C++");
+    }
+}
+
 fn check_reserved_lifetime(cx: &mut Check, lifetime: &Lifetime) {
     if lifetime.ident == "static" {
         match cx.generator {
-- 
2.43.0


From e0ce05cc2734657cc61797670156a2d9520f2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 28/36] fix: allow an extern "Rust" function to be called r#fn

---
 macro/src/expand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index b658598..2c5a5b9 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1238,7 +1238,7 @@ fn expand_rust_function_shim_impl(
         quote!(#local_name)
     };
 
-    expr = quote_spanned!(span=> ::cxx::private::prevent_unwind(__fn, #closure));
+    expr = quote_spanned!(span=> ::cxx::private::prevent_unwind(__cxxbridge_fn, #closure));
 
     let ret = if sig.throws {
         quote!(-> ::cxx::private::Result)
@@ -1256,7 +1256,7 @@ fn expand_rust_function_shim_impl(
         #[doc(hidden)]
         #[#UnsafeAttr(#ExportNameAttr = #link_name)]
         unsafe extern "C" fn #local_name #generics(#(#all_args,)* #outparam #pointer) #ret {
-            let __fn = ::cxx::private::concat!(::cxx::private::module_path!(), #prevent_unwind_label);
+            let __cxxbridge_fn = ::cxx::private::concat!(::cxx::private::module_path!(), #prevent_unwind_label);
             #wrap_super
             #expr
         }
-- 
2.43.0


From d72fcb7273afcba95d562e901234a8471ee91d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:32 +0000
Subject: [PATCH 29/36] fix: strip r# from the segments of a namespace
 attribute

---
 syntax/namespace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syntax/namespace.rs b/syntax/namespace.rs
index 417fb34..3eefb6d 100644
--- a/syntax/namespace.rs
+++ b/syntax/namespace.rs
@@ -2,6 +2,7 @@ use crate::syntax::qualified::QualifiedName;
 use quote::IdentFragment;
 use std::fmt::{self, Display};
 use std::slice::Iter;
+use syn::ext::IdentExt;
 use syn::parse::{Error, Parse, ParseStream, Result};
 use syn::{Expr, Ident, Lit, Meta, Token};
 
@@ -56,7 +57,7 @@ impl Namespace {
                         .path
                         .segments
                         .iter()
-                        .map(|segment| segment.ident.clone())
+                        .map(|segment| segment.ident.unraw())
                         .collect();
                     return Ok(Namespace { segments });
                 }
-- 
2.43.0


From 11b171cce04c50c04b945617df5ca845a252da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 30/36] fix: never reach into the source directory through an
 include prefix symlink

---
 gen/build/src/lib.rs | 10 ++++++++++
 gen/build/src/out.rs |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index ec0e514..b8b72f3 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -363,6 +363,16 @@ fn make_crate_dir(prj: &Project) -> PathBuf {
         return prj.manifest_dir.clone();
     }
     let crate_dir = prj.out_dir.join("cxxbridge").join("crate");
+    // An earlier build with a shorter include prefix may have left a symlink to
+    // the manifest dir at some parent of the new link. Removing or creating
+    // anything below that one would happen in the source directory.
+    let mut link_parent = crate_dir.clone();
+    for component in &prj.include_prefix {
+        if link_parent.is_symlink() {
+            out::best_effort_remove(&link_parent);
+        }
+        link_parent.push(component);
+    }
     let ref link = crate_dir.join(&prj.include_prefix);
     let ref manifest_dir = prj.manifest_dir;
     if out::relative_symlink_dir(manifest_dir, link).is_err() && cfg!(not(unix)) {
diff --git a/gen/build/src/out.rs b/gen/build/src/out.rs
index 757105c..c6f3bfb 100644
--- a/gen/build/src/out.rs
+++ b/gen/build/src/out.rs
@@ -118,7 +118,7 @@ fn symlink_dir(
     }
 }
 
-fn best_effort_remove(path: &Path) {
+pub(crate) fn best_effort_remove(path: &Path) {
     use std::fs;
 
     if cfg!(windows) {
-- 
2.43.0


From 1fe97aefa3c36a4279cad4ca98298c1a0424e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 31/36] fix: keep generated code inside the out dir for an
 include prefix containing ..

---
 gen/build/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index b8b72f3..d0dc194 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -163,7 +163,7 @@ impl Project {
     fn init() -> Result<Self> {
         let include_prefix = Path::new(CFG.include_prefix);
         assert!(include_prefix.is_relative());
-        let include_prefix = include_prefix.components().collect();
+        let include_prefix = paths::local_relative_path(include_prefix);
 
         let links_attribute = env::var_os("CARGO_MANIFEST_LINKS");
 
-- 
2.43.0


From 8d7accbaf347b10c9857bd3f90203810bb1d2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:09 +0000
Subject: [PATCH 32/36] fix: report a failure to write to stdout

---
 gen/cmd/src/main.rs |  2 +-
 gen/src/fs.rs       | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gen/cmd/src/main.rs b/gen/cmd/src/main.rs
index 48cd944..78f66e0 100644
--- a/gen/cmd/src/main.rs
+++ b/gen/cmd/src/main.rs
@@ -109,7 +109,7 @@ fn try_main() -> Result<()> {
             Kind::Header => include::HEADER.as_bytes(),
         };
         match output {
-            Output::Stdout => drop(io::stdout().write_all(content)),
+            Output::Stdout => fs::write_stdout(content)?,
             Output::File(path) => fs::write(path, content)?,
         }
     }
diff --git a/gen/src/fs.rs b/gen/src/fs.rs
index a96b551..51edf13 100644
--- a/gen/src/fs.rs
+++ b/gen/src/fs.rs
@@ -2,7 +2,7 @@
 
 use std::error::Error as StdError;
 use std::fmt::{self, Display};
-use std::io::{self, Read};
+use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 
 pub(crate) type Result<T> = std::result::Result<T, Error>;
@@ -170,3 +170,14 @@ pub(crate) fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> Resul
         Err(e) => err!(e, "Failed to write file `{}`", path),
     }
 }
+
+pub(crate) fn write_stdout(contents: impl AsRef<[u8]>) -> Result<()> {
+    let mut stdout = io::stdout();
+    match stdout
+        .write_all(contents.as_ref())
+        .and_then(|()| stdout.flush())
+    {
+        Ok(()) => Ok(()),
+        Err(e) => err!(e, "Failed to write output to stdout"),
+    }
+}
-- 
2.43.0


From 539311f10f25bca3f2f02cdb9a92209b189e6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:54 +0000
Subject: [PATCH 33/36] fix: a doc comment ending in a backslash made the next
 line of the generated C++ a part of the comment

---
 gen/src/write.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 37ee3e7..3f12f6e 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -269,10 +269,18 @@ fn pick_includes_and_builtins(out: &mut OutFile, apis: &[Api]) {
 fn write_doc(out: &mut OutFile, indent: &str, doc: &Doc) {
     let mut lines = 0;
     for line in doc.to_string().lines() {
+        // In C++ a backslash at the end of a line, or the trigraph for one,
+        // would make the next line a part of the comment.
+        let end = line.trim_end();
+        let stop = if end.ends_with('\\') || end.ends_with("??/") {
+            " //"
+        } else {
+            ""
+        };
         if out.opt.doxygen {
-            writeln!(out, "{}///{}", indent, line);
+            writeln!(out, "{}///{}{}", indent, line, stop);
         } else {
-            writeln!(out, "{}//{}", indent, line);
+            writeln!(out, "{}//{}{}", indent, line, stop);
         }
         lines += 1;
     }
-- 
2.43.0


From 5f641120264a39149b485ed421342e856281bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:54 +0000
Subject: [PATCH 34/36] fix: included header names were escaped like Rust
 strings, which C++ does not understand

---
 gen/src/include.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/src/include.rs b/gen/src/include.rs
index 3f1f754..5d0672b 100644
--- a/gen/src/include.rs
+++ b/gen/src/include.rs
@@ -74,7 +74,8 @@ pub(super) fn write(out: &mut OutFile) {
     for include in &include.custom {
         match include.kind {
             IncludeKind::Quoted => {
-                writeln!(out, "#include \"{}\"", include.path.escape_default());
+                // No escape sequences in C++ header names.
+                writeln!(out, "#include \"{}\"", include.path);
             }
             IncludeKind::Bracketed => {
                 writeln!(out, "#include <{}>", include.path);
-- 
2.43.0


From 9bfe0239669981f3e85757ec168785570be7bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:02 +0000
Subject: [PATCH 35/36] fix: allow the arguments of a function pointer to be
 called _, or the same as each other

---
 syntax/parse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 7f33f26..4dd543a 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -1391,15 +1391,16 @@ fn parse_type_fn(ty: &TypeBareFn) -> Result<Type> {
         .iter()
         .enumerate()
         .map(|(i, arg)| {
-            let (ident, colon_token) = match &arg.name {
-                Some((ident, colon_token)) => (ident.clone(), *colon_token),
+            // The name of a function pointer's argument is only documentation.
+            // It is allowed to be `_`, or the same as the name of another one.
+            let (span, colon_token) = match &arg.name {
+                Some((ident, colon_token)) => (ident.span(), *colon_token),
                 None => {
                     let fn_span = ty.paren_token.span.join();
-                    let ident = format_ident!("arg{}", i, span = fn_span);
-                    let colon_token = Token![:](fn_span);
-                    (ident, colon_token)
+                    (fn_span, Token![:](fn_span))
                 }
             };
+            let ident = format_ident!("arg{}", i, span = span);
             let ty = parse_type(&arg.ty)?;
             let cfg = CfgExpr::Unconditional;
             let doc = Doc::new();
-- 
2.43.0


From cf307ee39b78d600dd2fb7b842588b6240d69451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:02 +0000
Subject: [PATCH 36/36] fix: never give an unnamed argument the name of another
 argument

---
 syntax/parse.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 4dd543a..4b0fc30 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -12,6 +12,7 @@ use crate::syntax::{
 use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned};
 use std::mem;
+use syn::ext::IdentExt;
 use syn::parse::{ParseStream, Parser};
 use syn::punctuated::Punctuated;
 use syn::{
@@ -640,7 +641,21 @@ fn parse_extern_fn(
                 let ident = match arg.pat.as_ref() {
                     Pat::Ident(pat) => pat.ident.clone(),
                     Pat::Wild(pat) => {
-                        Ident::new(&format!("arg{}", args.len()), pat.underscore_token.span)
+                        let name = (args.len()..)
+                            .map(|i| format!("arg{}", i))
+                            .find(|name| {
+                                let is_named = |input: &FnArg| match input {
+                                    FnArg::Typed(input) => match input.pat.as_ref() {
+                                        Pat::Ident(pat) => pat.ident.unraw() == name,
+                                        _ => false,
+                                    },
+                                    FnArg::Receiver(_) => false,
+                                };
+                                !foreign_fn.sig.inputs.iter().any(is_named)
+                                    && !args.iter().any(|arg: &Var| arg.name.rust == name)
+                            })
+                            .unwrap();
+                        Ident::new(&name, pat.underscore_token.span)
                     }
                     _ => return Err(Error::new_spanned(arg, "unsupported signature")),
                 };
-- 
2.43.0

