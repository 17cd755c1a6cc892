From 628612bbde4ea973261ac0ee398998a51d0d384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 01/52] fix: emit an i64::MIN enum discriminant that is valid
 C++

-9223372036854775808 is not a negative literal in C++, so an enum with such
a discriminant was accepted but its generated code did not compile.
---
 gen/src/write.rs       | 23 +++++++++++++++++------
 syntax/discriminant.rs |  2 +-
 syntax/mod.rs          |  2 +-
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 8833f74..8cb8f20 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -3,6 +3,7 @@ use crate::gen::nested::NamespaceEntries;
 use crate::gen::out::OutFile;
 use crate::gen::{builtin, include, Opt};
 use crate::syntax::atom::Atom::{self, *};
+use crate::syntax::discriminant::Discriminant;
 use crate::syntax::instantiate::{ImplKey, NamedImplKey};
 use crate::syntax::map::UnorderedMap as Map;
 use crate::syntax::primitive::{self, PrimitiveKind};
@@ -438,7 +439,9 @@ fn write_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     writeln!(out, " {{");
     for variant in &enm.variants {
         write_doc(out, "  ", &variant.doc);
-        writeln!(out, "  {} = {},", variant.name.cxx, variant.discriminant);
+        write!(out, "  {} = ", variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ",");
     }
     writeln!(out, "}};");
     writeln!(out, "#endif // {}", guard);
@@ -463,11 +466,19 @@ fn check_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     for variant in &enm.variants {
         write!(out, "static_assert(static_cast<");
         write_atom(out, repr);
-        writeln!(
-            out,
-            ">({}::{}) == {}, \"disagrees with the value in #[cxx::bridge]\");",
-            enm.name.cxx, variant.name.cxx, variant.discriminant,
-        );
+        write!(out, ">({}::{}) == ", enm.name.cxx, variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ", \"disagrees with the value in #[cxx::bridge]\");");
+    }
+}
+
+fn write_discriminant(out: &mut OutFile, discriminant: Discriminant) {
+    if discriminant == Discriminant::neg(i64::MIN) {
+        // In C++ `-9223372036854775808` is the negation of a literal that does
+        // not fit in any signed integer type, as opposed to a negative literal.
+        write!(out, "({} - 1)", Discriminant::neg(i64::MIN + 1));
+    } else {
+        write!(out, "{}", discriminant);
     }
 }
 
diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index a8400aa..46ea953 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -163,7 +163,7 @@ impl Discriminant {
         }
     }
 
-    const fn neg(i: i64) -> Self {
+    pub(crate) const fn neg(i: i64) -> Self {
         Discriminant {
             sign: if i < 0 {
                 Sign::Negative
diff --git a/syntax/mod.rs b/syntax/mod.rs
index efd6f91..84223e6 100644
--- a/syntax/mod.rs
+++ b/syntax/mod.rs
@@ -5,7 +5,7 @@ pub(crate) mod attrs;
 pub(crate) mod cfg;
 pub(crate) mod check;
 pub(crate) mod derive;
-mod discriminant;
+pub(crate) mod discriminant;
 mod doc;
 pub(crate) mod error;
 pub(crate) mod file;
-- 
2.43.0


From 1a82147c1624db5c8eec3cf9edd6533fdc20bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 02/52] fix: treat a -0 enum discriminant as 0

The variant after `A = -0` underflowed the magnitude (panic), and the
negative zero was considered out of range of unsigned reprs.
---
 syntax/discriminant.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index 46ea953..53a2f4b 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -117,8 +117,8 @@ fn expr_to_discriminant(expr: &Expr) -> Result<(Discriminant, Option<Atom>)> {
             if let UnOp::Neg(_) = unary.op {
                 let (mut discriminant, repr) = expr_to_discriminant(&unary.expr)?;
                 discriminant.sign = match discriminant.sign {
-                    Sign::Positive => Sign::Negative,
-                    Sign::Negative => Sign::Positive,
+                    Sign::Positive if discriminant.magnitude != 0 => Sign::Negative,
+                    Sign::Positive | Sign::Negative => Sign::Positive,
                 };
                 return Ok((discriminant, repr));
             }
-- 
2.43.0


From 45900f5a032f6641aad314abc571a2589fe09085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:48 +0000
Subject: [PATCH 03/52] fix: define member functions of Rust types in the
 namespace of the type

A method declared in a bridge whose namespace is not that of its receiver
type was accepted, but was defined in a namespace that does not enclose
the class, which does not compile.
---
 gen/src/write.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 8cb8f20..cc1e39c 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -6,6 +6,7 @@ use crate::syntax::atom::Atom::{self, *};
 use crate::syntax::discriminant::Discriminant;
 use crate::syntax::instantiate::{ImplKey, NamedImplKey};
 use crate::syntax::map::UnorderedMap as Map;
+use crate::syntax::namespace::Namespace;
 use crate::syntax::primitive::{self, PrimitiveKind};
 use crate::syntax::set::UnorderedSet;
 use crate::syntax::symbol::{self, Symbol};
@@ -927,7 +928,7 @@ fn write_function_pointer_trampoline(out: &mut OutFile, efn: &ExternFn, var: &Pa
 }
 
 fn write_rust_function_decl<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
-    out.set_namespace(&efn.name.namespace);
+    out.set_namespace(rust_function_namespace(efn, out.types));
     out.begin_block(Block::ExternC);
     let link_name = mangle::extern_fn(efn, out.types);
     let indirect_call = false;
@@ -995,8 +996,16 @@ fn write_rust_function_decl_impl(
     writeln!(out, ") noexcept;");
 }
 
+// A member function must be defined in a namespace that encloses its class.
+fn rust_function_namespace<'a>(efn: &'a ExternFn, types: &'a Types) -> &'a Namespace {
+    match &efn.receiver {
+        None => &efn.name.namespace,
+        Some(receiver) => &types.resolve(&receiver.ty).name.namespace,
+    }
+}
+
 fn write_rust_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
-    out.set_namespace(&efn.name.namespace);
+    out.set_namespace(rust_function_namespace(efn, out.types));
     let local_name = match &efn.sig.receiver {
         None => efn.name.cxx.to_string(),
         Some(receiver) => format!(
-- 
2.43.0


From a441dee944424e9a28c5e4d42203394f78e0cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:48 +0000
Subject: [PATCH 04/52] fix: support Vec<&str> in function signatures

It was accepted, but the expansion declared the element type as the FFI
representation of &str and did not compile.
---
 macro/src/expand.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index aa90fd0..3350d16 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1880,7 +1880,7 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
         Type::RustVec(ty) => {
             let span = ty.name.span();
             let langle = ty.langle;
-            let elem = expand_extern_type(&ty.inner, types, proper);
+            let elem = expand_extern_vec_element(&ty.inner, types, proper);
             let rangle = ty.rangle;
             quote_spanned!(span=> ::cxx::private::RustVec #langle #elem #rangle)
         }
@@ -1896,7 +1896,7 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
                 Type::RustVec(ty) => {
                     let span = ty.name.span();
                     let langle = ty.langle;
-                    let inner = expand_extern_type(&ty.inner, types, proper);
+                    let inner = expand_extern_vec_element(&ty.inner, types, proper);
                     let rangle = ty.rangle;
                     quote_spanned!(span=> #ampersand #lifetime #mutability ::cxx::private::RustVec #langle #inner #rangle)
                 }
@@ -1934,6 +1934,14 @@ fn expand_extern_type(ty: &Type, types: &Types, proper: bool) -> TokenStream {
     }
 }
 
+fn expand_extern_vec_element(ty: &Type, types: &Types, proper: bool) -> TokenStream {
+    match ty {
+        // The element type of the vector on the Rust side is really &str.
+        Type::Str(_) => quote!(#ty),
+        _ => expand_extern_type(ty, types, proper),
+    }
+}
+
 fn expand_extern_return_type(ret: &Option<Type>, types: &Types, proper: bool) -> TokenStream {
     let ret = match ret {
         Some(ret) if !types.needs_indirect_abi(ret) => ret,
-- 
2.43.0


From d015627599704089ae3e8f3f34b33f065983fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:12 +0000
Subject: [PATCH 05/52] fix: accept elided lifetimes in an indirect return of a
 Rust function

Signatures such as fn(&T) -> Result<&U> or fn(&T) -> Struct<'_> in an
extern "Rust" block were accepted but their expansion did not compile.
---
 macro/src/expand.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 3350d16..4d1feaa 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1127,11 +1127,13 @@ fn expand_rust_function_shim_impl(
     let indirect_return = indirect_return(sig, types);
     if indirect_return {
         let ret = expand_extern_type(sig.ret.as_ref().unwrap(), types, false);
+        // Elided lifetimes in this type are unrelated to those of the arguments,
+        // hence the casts below.
         outparam = Some(quote_spanned!(span=> __return: *mut #ret,));
     }
     if sig.throws {
         let out = match sig.ret {
-            Some(_) => quote_spanned!(span=> __return),
+            Some(_) => quote_spanned!(span=> __return.cast()),
             None => quote_spanned!(span=> &mut ()),
         };
         requires_closure = true;
@@ -1140,7 +1142,7 @@ fn expand_rust_function_shim_impl(
     } else if indirect_return {
         requires_closure = true;
         requires_unsafe = true;
-        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return, #expr));
+        expr = quote_spanned!(span=> ::cxx::core::ptr::write(__return.cast(), #expr));
     }
 
     if requires_unsafe {
-- 
2.43.0


From 685e84c4d39505e4e66ba4d8f578857df8431e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:30 +0000
Subject: [PATCH 06/52] fix: methods implemented in C++ on shared structs with
 Rust fields

A method in an extern "C++" block whose receiver is a shared struct that
contains e.g. a String or Box was accepted, but the expansion was rejected
by its own #[deny(improper_ctypes)].
---
 macro/src/expand.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 4d1feaa..0a3ad85 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -7,8 +7,8 @@ use crate::syntax::qualified::QualifiedName;
 use crate::syntax::report::Errors;
 use crate::syntax::symbol::Symbol;
 use crate::syntax::{
-    self, check, mangle, Api, Doc, Enum, ExternFn, ExternType, Impl, Lifetimes, Pair, Signature,
-    Struct, Trait, Type, TypeAlias, Types,
+    self, check, mangle, Api, Doc, Enum, ExternFn, ExternType, Impl, Lifetimes, Pair, Receiver,
+    Signature, Struct, Trait, Type, TypeAlias, Types,
 };
 use crate::type_id::Crate;
 use crate::{derive, generics};
@@ -460,6 +460,12 @@ fn expand_cxx_type_assert_pinned(ety: &ExternType, types: &Types) -> TokenStream
 fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
     let generics = &efn.generics;
     let receiver = efn.receiver.iter().map(|receiver| {
+        if is_improper_ctype_receiver(receiver, types) {
+            return match receiver.mutable {
+                false => quote!(_: *const ::cxx::core::ffi::c_void),
+                true => quote!(_: *mut ::cxx::core::ffi::c_void),
+            };
+        }
         let receiver_type = receiver.ty();
         quote!(_: #receiver_type)
     });
@@ -498,6 +504,13 @@ fn expand_cxx_function_decl(efn: &ExternFn, types: &Types) -> TokenStream {
     }
 }
 
+fn is_improper_ctype_receiver(receiver: &Receiver, types: &Types) -> bool {
+    let ident = &receiver.ty.rust;
+    types.struct_improper_ctypes.contains(ident)
+        || types.rust.contains(ident)
+        || types.aliases.contains_key(ident)
+}
+
 fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
     let doc = &efn.doc;
     let attrs = &efn.attrs;
@@ -527,10 +540,20 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
         expand_return_type(&efn.ret)
     };
     let indirect_return = indirect_return(efn, types);
-    let receiver_var = efn
-        .receiver
-        .iter()
-        .map(|receiver| receiver.var.to_token_stream());
+    let receiver_var = efn.receiver.iter().map(|receiver| {
+        let var = receiver.var;
+        if is_improper_ctype_receiver(receiver, types) {
+            let var = match receiver.pinned {
+                false => quote!(#var),
+                true => quote!(::cxx::core::pin::Pin::into_inner_unchecked(#var)),
+            };
+            return match receiver.mutable {
+                false => quote!(#var as *const _ as *const ::cxx::core::ffi::c_void),
+                true => quote!(#var as *mut _ as *mut ::cxx::core::ffi::c_void),
+            };
+        }
+        var.to_token_stream()
+    });
     let arg_vars = efn.args.iter().map(|arg| {
         let var = &arg.name.rust;
         let span = var.span();
-- 
2.43.0


From 3b9d204eb5d8f060967b5161d12dfa80487938fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:22 +0000
Subject: [PATCH 07/52] fix: order C++ struct definitions by the element types
 of array fields

A shared struct containing an array of another shared struct that was
declared later in the bridge got generated before its element type.
---
 syntax/toposort.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syntax/toposort.rs b/syntax/toposort.rs
index 9c97eb1..2942f0a 100644
--- a/syntax/toposort.rs
+++ b/syntax/toposort.rs
@@ -36,7 +36,11 @@ fn visit<'a>(
     }
     let mut result = Ok(());
     for field in &strct.fields {
-        if let Type::Ident(ident) = &field.ty {
+        let mut ty = &field.ty;
+        while let Type::Array(array) = ty {
+            ty = &array.inner;
+        }
+        if let Type::Ident(ident) = ty {
             if let Some(inner) = types.structs.get(&ident.rust) {
                 if visit(cx, inner, sorted, marks, types).is_err() {
                     cx.error(field, "unsupported cyclic data structure");
-- 
2.43.0


From 5edb66fd424fbbbdfb66fa936b708390d874da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:22 +0000
Subject: [PATCH 08/52] fix: returned references with an elided lifetime

fn(&str) -> &T, fn(&[T]) -> &T and fn(&S) -> &T where S has Rust fields were
accepted in extern blocks, but the extern signature they expanded to had no
argument for the elided lifetime to refer to.
---
 macro/src/expand.rs | 60 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 0a3ad85..7dc1c6f 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -8,7 +8,7 @@ use crate::syntax::report::Errors;
 use crate::syntax::symbol::Symbol;
 use crate::syntax::{
     self, check, mangle, Api, Doc, Enum, ExternFn, ExternType, Impl, Lifetimes, Pair, Receiver,
-    Signature, Struct, Trait, Type, TypeAlias, Types,
+    Ref, Signature, Struct, Trait, Type, TypeAlias, Types,
 };
 use crate::type_id::Crate;
 use crate::{derive, generics};
@@ -668,8 +668,21 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
             #local_name(#(#vars),*).exception()
         }
     } else {
-        quote_spanned! {span=>
+        let call = quote_spanned! {span=>
             #local_name(#(#vars),*)
+        };
+        match efn.ret.as_ref().and_then(elided_ref_return) {
+            None => call,
+            Some(ty) if is_void_pointer(ty, types) => call,
+            Some(ty) => {
+                let mutability = ty.mutability;
+                let deref = quote_spanned!(span=> &#mutability *#call);
+                match ty.pinned {
+                    false if is_rust_container(&ty.inner) => quote_spanned!(span=> (#deref)),
+                    false => deref,
+                    true => quote_spanned!(span=> ::cxx::core::pin::Pin::new_unchecked(#deref)),
+                }
+            }
         }
     };
     let mut expr;
@@ -1146,6 +1159,14 @@ fn expand_rust_function_shim_impl(
         }
     };
 
+    if !sig.throws {
+        if let Some(Ref { pinned: true, .. }) = sig.ret.as_ref().and_then(elided_ref_return) {
+            requires_closure = true;
+            requires_unsafe = true;
+            expr = quote_spanned!(span=> ::cxx::core::pin::Pin::into_inner_unchecked(#expr));
+        }
+    }
+
     let mut outparam = None;
     let indirect_return = indirect_return(sig, types);
     if indirect_return {
@@ -1972,10 +1993,45 @@ fn expand_extern_return_type(ret: &Option<Type>, types: &Types, proper: bool) ->
         Some(ret) if !types.needs_indirect_abi(ret) => ret,
         _ => return TokenStream::new(),
     };
+    if let Some(ty) = elided_ref_return(ret) {
+        let inner = match &ty.inner {
+            _ if proper && is_void_pointer(ty, types) => quote!(::cxx::core::ffi::c_void),
+            inner if is_rust_container(inner) => expand_extern_type(inner, types, proper),
+            inner => quote!(#inner),
+        };
+        return match ty.mutable {
+            false => quote!(-> *const #inner),
+            true => quote!(-> *mut #inner),
+        };
+    }
     let ty = expand_extern_type(ret, types, proper);
     quote!(-> #ty)
 }
 
+// A returned reference whose lifetime is elided. It is passed as a raw pointer
+// because the arguments it would need to borrow from do not necessarily have a
+// lifetime in the extern signature.
+fn elided_ref_return(ret: &Type) -> Option<&Ref> {
+    match ret {
+        Type::Ref(ty) if ty.lifetime.is_none() => Some(ty),
+        _ => None,
+    }
+}
+
+// Whether expand_extern_type expands the reference to a pointer to void in an
+// extern "C++" signature.
+fn is_void_pointer(ty: &Ref, types: &Types) -> bool {
+    !is_rust_container(&ty.inner) && types.is_considered_improper_ctype(&ty.inner)
+}
+
+fn is_rust_container(ty: &Type) -> bool {
+    match ty {
+        Type::Ident(ident) => ident.rust == RustString,
+        Type::RustVec(_) => true,
+        _ => false,
+    }
+}
+
 // #UnsafeExtern extern "C" {...}
 // https://blog.rust-lang.org/2024/10/17/Rust-1.82.0.html#safe-items-with-unsafe-extern
 struct UnsafeExtern;
-- 
2.43.0


From d89c1aa371446247337e0f0097ac81373857aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:58 +0000
Subject: [PATCH 09/52] fix: order rust::Str and rust::String by unsigned bytes
 in C++, as Rust does

---
 src/cxx.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 45d9aac..f651452 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -357,8 +357,14 @@ bool Str::operator==(const Str &rhs) const noexcept {
 bool Str::operator!=(const Str &rhs) const noexcept { return !(*this == rhs); }
 
 bool Str::operator<(const Str &rhs) const noexcept {
-  return std::lexicographical_compare(this->begin(), this->end(), rhs.begin(),
-                                      rhs.end());
+  // Compare as unsigned bytes like Rust's str, regardless of whether the
+  // platform's char is signed.
+  return std::lexicographical_compare(
+      this->begin(), this->end(), rhs.begin(), rhs.end(),
+      [](char lhs, char rhs) {
+        return static_cast<unsigned char>(lhs) <
+               static_cast<unsigned char>(rhs);
+      });
 }
 
 bool Str::operator<=(const Str &rhs) const noexcept {
@@ -374,7 +380,8 @@ bool Str::operator<=(const Str &rhs) const noexcept {
   } else if (riter == rend) {
     return false; // rhs is a prefix of *this
   } else {
-    return *liter <= *riter;
+    return static_cast<unsigned char>(*liter) <=
+           static_cast<unsigned char>(*riter);
   }
 }
 
-- 
2.43.0


From bb8e532b3cb51850ed4bae6f7966dcad3add69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:08 +0000
Subject: [PATCH 10/52] fix: rust::Vec push_back and emplace_back of its own
 element after reallocation

---
 include/cxx.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 4e261a3..a908190 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -987,10 +987,19 @@ template <typename T>
 template <typename... Args>
 void Vec<T>::emplace_back(Args &&...args) {
   auto size = this->size();
-  this->reserve_total(size + 1);
-  ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
-                               size * size_of<T>()))
-      T(std::forward<Args>(args)...);
+  if (size == this->capacity()) {
+    // The arguments may refer into this Vec, so they need to be consumed before
+    // its elements get reallocated. Elements of a Vec are always relocatable.
+    alignas(T) char element[sizeof(T)];
+    ::new (static_cast<void *>(element)) T(std::forward<Args>(args)...);
+    this->reserve_total(size + 1);
+    std::copy(element, element + sizeof(T),
+              reinterpret_cast<char *>(this->data()) + size * size_of<T>());
+  } else {
+    ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
+                                 size * size_of<T>()))
+        T(std::forward<Args>(args)...);
+  }
   this->set_len(size + 1);
 }
 
-- 
2.43.0


From e1c48507da40f546d6b9752d552c81262f6038a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:08 +0000
Subject: [PATCH 11/52] fix: rust::Vec copy assignment when copying an element
 throws

---
 include/cxx.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index a908190..aedaa04 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -898,8 +898,9 @@ Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
 template <typename T>
 Vec<T> &Vec<T>::operator=(const Vec &other) & {
   if (this != &other) {
-    this->drop();
-    new (this) Vec(other);
+    // Copying an element may throw, in which case *this needs to stay valid.
+    Vec copy(other);
+    this->swap(copy);
   }
   return *this;
 }
-- 
2.43.0


From 52e6df918df27bd3695273a0f632d777abf7cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 12/52] fix: let_cxx_string! destroyed an uninitialized string
 when evaluating its value panicked or returned early

---
 src/cxx_string.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cxx_string.rs b/src/cxx_string.rs
index c58d8d8..84b9a4a 100644
--- a/src/cxx_string.rs
+++ b/src/cxx_string.rs
@@ -299,6 +299,8 @@ pub struct StackString {
     // Static assertions in cxx.cc validate that this is large enough and
     // aligned enough.
     space: MaybeUninit<[usize; 8]>,
+    // False if evaluating the string's value panicked or returned early.
+    initialized: bool,
 }
 
 #[allow(missing_docs)]
@@ -306,6 +308,7 @@ impl StackString {
     pub fn new() -> Self {
         StackString {
             space: MaybeUninit::uninit(),
+            initialized: false,
         }
     }
 
@@ -314,6 +317,7 @@ impl StackString {
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_init(this, value.as_ptr(), value.len());
+            self.initialized = true;
             Pin::new_unchecked(&mut *this.as_mut_ptr())
         }
     }
@@ -321,9 +325,11 @@ impl StackString {
 
 impl Drop for StackString {
     fn drop(&mut self) {
-        unsafe {
-            let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
-            string_destroy(this);
+        if self.initialized {
+            unsafe {
+                let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
+                string_destroy(this);
+            }
         }
     }
 }
-- 
2.43.0


From 3a373edb8af79eaf379716f8bb38db5ee204dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:15 +0000
Subject: [PATCH 13/52] fix: declare std::hash specializations in generated
 headers

---
 gen/src/write.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index cc1e39c..fc9758c 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -173,10 +173,10 @@ fn write_functions<'a>(out: &mut OutFile<'a>, apis: &'a [Api]) {
                 _ => {}
             }
         }
-
-        write_std_specializations(out, apis);
     }
 
+    write_std_specializations(out, apis);
+
     for api in apis {
         match api {
             Api::Struct(strct) => write_struct_operators(out, strct),
@@ -201,20 +201,31 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                 out.include.cstddef = true;
                 out.include.functional = true;
                 let qualified = strct.name.to_fully_qualified();
+                let guard = format!("CXXBRIDGE1_HASH_{}", strct.name.to_symbol());
+                writeln!(out, "#ifndef {}", guard);
+                writeln!(out, "#define {}", guard);
                 writeln!(out, "template <> struct hash<{}> {{", qualified);
                 writeln!(
                     out,
-                    "  ::std::size_t operator()({} const &self) const noexcept {{",
+                    "  ::std::size_t operator()({} const &self) const noexcept;",
                     qualified,
                 );
-                let link_name = mangle::operator(&strct.name, "hash");
-                write!(out, "    return ::");
-                for name in &strct.name.namespace {
-                    write!(out, "{}::", name);
-                }
-                writeln!(out, "{}(self);", link_name);
-                writeln!(out, "  }}");
                 writeln!(out, "}};");
+                writeln!(out, "#endif // {}", guard);
+                if !out.header {
+                    writeln!(
+                        out,
+                        "::std::size_t hash<{}>::operator()({} const &self) const noexcept {{",
+                        qualified, qualified,
+                    );
+                    let link_name = mangle::operator(&strct.name, "hash");
+                    write!(out, "  return ::");
+                    for name in &strct.name.namespace {
+                        write!(out, "{}::", name);
+                    }
+                    writeln!(out, "{}(self);", link_name);
+                    writeln!(out, "}}");
+                }
             }
         }
     }
-- 
2.43.0


From 44f3b2631b6df214387baf80ba470df43f77aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:13 +0000
Subject: [PATCH 14/52] fix: move-assigning a Vec from inside one of its own
 elements

---
 include/cxx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cxx.h b/include/cxx.h
index aedaa04..d849c35 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -889,7 +889,8 @@ Vec<T>::~Vec() noexcept {
 
 template <typename T>
 Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
-  this->drop();
+  // The old elements may own `other`, so they need to outlive the move.
+  Vec old(std::move(*this));
   this->repr = other.repr;
   new (&other) Vec();
   return *this;
-- 
2.43.0


From cb5a6d7ce32dd50a5cf8d75cee22e2cb7d361259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 15/52] fix: raw identifiers in a bridge produced invalid C++
 names

---
 gen/src/write.rs | 8 ++++----
 syntax/names.rs  | 2 +-
 syntax/symbol.rs | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index fc9758c..02dc13b 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -806,12 +806,12 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
     write!(out, "  ");
     write_return_type(out, &efn.ret);
     match &efn.receiver {
-        None => write!(out, "(*{}$)(", efn.name.rust),
+        None => write!(out, "(*{}$)(", efn.name.cxx),
         Some(receiver) => write!(
             out,
             "({}::*{}$)(",
             out.types.resolve(&receiver.ty).name.to_fully_qualified(),
-            efn.name.rust,
+            efn.name.cxx,
         ),
     }
     for (i, arg) in efn.args.iter().enumerate() {
@@ -869,8 +869,8 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
         _ => {}
     }
     match &efn.receiver {
-        None => write!(out, "{}$(", efn.name.rust),
-        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust),
+        None => write!(out, "{}$(", efn.name.cxx),
+        Some(_) => write!(out, "(self.*{}$)(", efn.name.cxx),
     }
     for (i, arg) in efn.args.iter().enumerate() {
         if i > 0 {
diff --git a/syntax/names.rs b/syntax/names.rs
index 7afa5a9..3c6f34b 100644
--- a/syntax/names.rs
+++ b/syntax/names.rs
@@ -40,7 +40,7 @@ impl ForeignName {
         // non-alphanumeric characters (`operator++`).
         match Ident::parse_any.parse_str(text) {
             Ok(ident) => {
-                let text = ident.to_string();
+                let text = ident.unraw().to_string();
                 Ok(ForeignName { text })
             }
             Err(err) => Err(Error::new(span, err)),
diff --git a/syntax/symbol.rs b/syntax/symbol.rs
index f9fd32c..24eb85b 100644
--- a/syntax/symbol.rs
+++ b/syntax/symbol.rs
@@ -3,6 +3,7 @@ use crate::syntax::{ForeignName, Pair};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use std::fmt::{self, Display, Write};
+use syn::ext::IdentExt;
 
 // A mangled symbol consisting of segments separated by '$'.
 // For example: cxxbridge1$string$new
@@ -58,7 +59,7 @@ impl Segment for usize {
 
 impl Segment for Ident {
     fn write(&self, symbol: &mut Symbol) {
-        symbol.push(&self);
+        symbol.push(&self.unraw());
     }
 }
 
-- 
2.43.0


From 755474206dae7a8b85d7489f7d03b9919e0fabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 16/52] fix: derived Debug of shared types printed raw
 identifiers with their r# prefix

---
 macro/src/derive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/macro/src/derive.rs b/macro/src/derive.rs
index c31d2d8..8922651 100644
--- a/macro/src/derive.rs
+++ b/macro/src/derive.rs
@@ -1,6 +1,7 @@
 use crate::syntax::{derive, Enum, Struct};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 pub(crate) use crate::syntax::derive::*;
 
@@ -140,9 +141,9 @@ fn struct_clone(strct: &Struct, span: Span) -> TokenStream {
 fn struct_debug(strct: &Struct, span: Span) -> TokenStream {
     let ident = &strct.name.rust;
     let generics = &strct.generics;
-    let struct_name = ident.to_string();
+    let struct_name = ident.unraw().to_string();
     let fields = strct.fields.iter().map(|field| &field.name.rust);
-    let field_names = fields.clone().map(Ident::to_string);
+    let field_names = fields.clone().map(|name| name.unraw().to_string());
 
     quote_spanned! {span=>
         #[automatically_derived]
@@ -257,12 +258,12 @@ fn enum_debug(enm: &Enum, span: Span) -> TokenStream {
     let ident = &enm.name.rust;
     let variants = enm.variants.iter().map(|variant| {
         let variant = &variant.name.rust;
-        let name = variant.to_string();
+        let name = variant.unraw().to_string();
         quote_spanned! {span=>
             #ident::#variant => formatter.write_str(#name),
         }
     });
-    let fallback = format!("{}({{}})", ident);
+    let fallback = format!("{}({{}})", ident.unraw());
 
     quote_spanned! {span=>
         #[automatically_derived]
-- 
2.43.0


From 5b8a1fbd88cf06b1f3a71b7335ac3ad2edb33954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:02 +0000
Subject: [PATCH 17/52] fix: reject enum discriminants out of range for usize
 and isize

---
 syntax/discriminant.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index 53a2f4b..d3703a7 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -282,6 +282,13 @@ struct Limits {
 
 impl Limits {
     fn of(repr: Atom) -> Option<Limits> {
+        // The width of the target's usize and isize is not known here. Limit
+        // them to the widest they can be.
+        let repr = match repr {
+            Usize => U64,
+            Isize => I64,
+            _ => repr,
+        };
         for limits in &LIMITS {
             if limits.repr == repr {
                 return Some(*limits);
-- 
2.43.0


From 33d569f3d5cf70a7be1a6a9fdeb0d0c18e28478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 18/52] fix: inner attribute with a space after #! was dropped
 as a shebang line

---
 gen/src/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/src/mod.rs b/gen/src/mod.rs
index c75541f..092dd70 100644
--- a/gen/src/mod.rs
+++ b/gen/src/mod.rs
@@ -132,7 +132,7 @@ fn read_to_string(path: &Path) -> Result<String> {
 
 fn generate_from_string(source: &str, opt: &Opt) -> Result<GeneratedCode> {
     let mut source = source;
-    if source.starts_with("#!") && !source.starts_with("#![") {
+    if source.starts_with("#!") && !source[2..].trim_start().starts_with('[') {
         let shebang_end = source.find('\n').unwrap_or(source.len());
         source = &source[shebang_end..];
     }
-- 
2.43.0


From 198c5d645932b6db4e497c59781fe9d63bf9c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:02 +0000
Subject: [PATCH 19/52] fix: cxxbridge ignored errors writing generated code to
 stdout

---
 gen/cmd/src/main.rs |  2 +-
 gen/src/fs.rs       | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gen/cmd/src/main.rs b/gen/cmd/src/main.rs
index 48cd944..78f66e0 100644
--- a/gen/cmd/src/main.rs
+++ b/gen/cmd/src/main.rs
@@ -109,7 +109,7 @@ fn try_main() -> Result<()> {
             Kind::Header => include::HEADER.as_bytes(),
         };
         match output {
-            Output::Stdout => drop(io::stdout().write_all(content)),
+            Output::Stdout => fs::write_stdout(content)?,
             Output::File(path) => fs::write(path, content)?,
         }
     }
diff --git a/gen/src/fs.rs b/gen/src/fs.rs
index a96b551..98226ba 100644
--- a/gen/src/fs.rs
+++ b/gen/src/fs.rs
@@ -2,7 +2,7 @@
 
 use std::error::Error as StdError;
 use std::fmt::{self, Display};
-use std::io::{self, Read};
+use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 
 pub(crate) type Result<T> = std::result::Result<T, Error>;
@@ -170,3 +170,14 @@ pub(crate) fn write(path: impl AsRef<Path>, contents: impl AsRef<[u8]>) -> Resul
         Err(e) => err!(e, "Failed to write file `{}`", path),
     }
 }
+
+pub(crate) fn write_stdout(contents: impl AsRef<[u8]>) -> Result<()> {
+    let mut stdout = io::stdout();
+    let contents = contents.as_ref();
+    match stdout.write_all(contents).and_then(|()| stdout.flush()) {
+        Ok(()) => Ok(()),
+        // Whoever is reading our output has no use for the rest of it.
+        Err(e) if e.kind() == io::ErrorKind::BrokenPipe => Ok(()),
+        Err(e) => err!(e, "Failed to write output to stdout"),
+    }
+}
-- 
2.43.0


From e07b0be71705a5bbc601061a3071f1257f16a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 20/52] fix: assignment between opaque Rust types compiled in
 C++ and silently did nothing

---
 include/cxx.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cxx.h b/include/cxx.h
index d849c35..94e9894 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -459,6 +459,7 @@ class Opaque {
 public:
   Opaque() = delete;
   Opaque(const Opaque &) = delete;
+  Opaque &operator=(const Opaque &) = delete;
   ~Opaque() = delete;
 };
 #endif // CXXBRIDGE1_RUST_OPAQUE
-- 
2.43.0


From 76c329d4d140e6c222b933d4a45d1724b007b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:55 +0000
Subject: [PATCH 21/52] fix: cfg(feature = "...") was false in cxx-build for
 features with a hyphen

---
 gen/build/src/cargo.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/gen/build/src/cargo.rs b/gen/build/src/cargo.rs
index 0293c5f..2e9e322 100644
--- a/gen/build/src/cargo.rs
+++ b/gen/build/src/cargo.rs
@@ -8,6 +8,10 @@ use std::sync::OnceLock;
 static ENV: OnceLock<CargoEnv> = OnceLock::new();
 
 struct CargoEnv {
+    // Exact feature names, from CARGO_CFG_FEATURE. Not set by every Cargo.
+    cfg_feature: Option<String>,
+    // Feature names as in CARGO_FEATURE_*, where Cargo made them uppercase and
+    // replaced `-` by `_`.
     features: Set<Name>,
     cfgs: Map<Name, String>,
 }
@@ -19,7 +23,10 @@ impl CfgEvaluator for CargoEnvCfgEvaluator {
         let env = ENV.get_or_init(CargoEnv::load);
         if name == "feature" {
             return if let Some(query_value) = query_value {
-                CfgResult::from(env.features.contains(Lookup::new(query_value)))
+                CfgResult::from(match &env.cfg_feature {
+                    Some(features) => features.split(',').any(|name| name == query_value),
+                    None => env.features.contains(Lookup::new(query_value)),
+                })
             } else {
                 let msg = "expected `feature = \"...\"`".to_owned();
                 CfgResult::Undetermined { msg }
@@ -65,7 +72,12 @@ impl CargoEnv {
                 cfgs.insert(cfg_name, v);
             }
         }
-        CargoEnv { features, cfgs }
+        let cfg_feature = cfgs.get(Lookup::new("feature")).cloned();
+        CargoEnv {
+            cfg_feature,
+            features,
+            cfgs,
+        }
     }
 }
 
@@ -136,7 +148,11 @@ struct CaseAgnosticByte(u8);
 
 impl Ord for CaseAgnosticByte {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        self.0.to_ascii_lowercase().cmp(&rhs.0.to_ascii_lowercase())
+        let normalize = |byte: u8| match byte {
+            b'-' => b'_',
+            _ => byte.to_ascii_lowercase(),
+        };
+        normalize(self.0).cmp(&normalize(rhs.0))
     }
 }
 
-- 
2.43.0


From 31c3fc7884a5f598837eeee94d06b5c5edc20305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:11 +0000
Subject: [PATCH 22/52] fix: cfg with only a name was true in cxx-build if the
 cfg is set with a value

---
 gen/build/src/cargo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/cargo.rs b/gen/build/src/cargo.rs
index 2e9e322..0112c0c 100644
--- a/gen/build/src/cargo.rs
+++ b/gen/build/src/cargo.rs
@@ -39,8 +39,13 @@ impl CfgEvaluator for CargoEnvCfgEvaluator {
         if let Some(cargo_value) = env.cfgs.get(Lookup::new(name)) {
             return if let Some(query_value) = query_value {
                 CfgResult::from(cargo_value.split(',').any(|value| value == query_value))
-            } else {
+            } else if cargo_value.is_empty() {
                 CfgResult::True
+            } else {
+                // A cfg that is only set with a value is false without one, but
+                // Cargo does not tell whether it is additionally set without.
+                let msg = format!("expected `{} = \"...\"`", name);
+                CfgResult::Undetermined { msg }
             };
         }
         if name == "debug_assertions" && query_value.is_none() {
-- 
2.43.0


From 2713c6d0e9d1a51be3fc9cc87473b277e817d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:59 +0000
Subject: [PATCH 23/52] fix: cfg attribute on include! was ignored

---
 syntax/parse.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 875e1d3..47bab8e 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -384,9 +384,19 @@ fn parse_foreign_mod(
                 }
             }
             ForeignItem::Macro(foreign) if foreign.mac.path.is_ident("include") => {
+                let mut cfg = cfg.clone();
+                attrs::parse(
+                    cx,
+                    foreign.attrs,
+                    attrs::Parser {
+                        cfg: Some(&mut cfg),
+                        ignore_unrecognized: true,
+                        ..Default::default()
+                    },
+                );
                 match foreign.mac.parse_body_with(parse_include) {
                     Ok(mut include) => {
-                        include.cfg = cfg.clone();
+                        include.cfg = cfg;
                         items.push(Api::Include(include));
                     }
                     Err(err) => cx.push(err),
-- 
2.43.0


From fbe2990fe71c391279259a8f18456f24e3f1430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:34 +0000
Subject: [PATCH 24/52] fix: do not modify the crate's source through a symlink
 left by an earlier include_prefix

---
 gen/build/src/lib.rs | 11 +++++++++++
 gen/build/src/out.rs |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index ec0e514..f54eaa5 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -364,6 +364,17 @@ fn make_crate_dir(prj: &Project) -> PathBuf {
     }
     let crate_dir = prj.out_dir.join("cxxbridge").join("crate");
     let ref link = crate_dir.join(&prj.include_prefix);
+    if let Some(parent) = prj.include_prefix.parent() {
+        // If this OUT_DIR previously had a shorter include_prefix, a leftover
+        // symlink to manifest_dir may be in the place of one of link's parent
+        // directories. Nothing must be removed or created through it: that
+        // would be happening to the crate's source code.
+        let mut dir = crate_dir.clone();
+        for component in parent.components() {
+            dir.push(component);
+            out::best_effort_remove_symlink(&dir);
+        }
+    }
     let ref manifest_dir = prj.manifest_dir;
     if out::relative_symlink_dir(manifest_dir, link).is_err() && cfg!(not(unix)) {
         let cachedir_tag = "\
diff --git a/gen/build/src/out.rs b/gen/build/src/out.rs
index 757105c..bde9f5d 100644
--- a/gen/build/src/out.rs
+++ b/gen/build/src/out.rs
@@ -118,6 +118,12 @@ fn symlink_dir(
     }
 }
 
+pub(crate) fn best_effort_remove_symlink(path: &Path) {
+    if path.is_symlink() {
+        best_effort_remove(path);
+    }
+}
+
 fn best_effort_remove(path: &Path) {
     use std::fs;
 
-- 
2.43.0


From f2d3d4d45ec51f027860f6066bef21b6e1eab357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:47 +0000
Subject: [PATCH 25/52] fix: reject CFG.include_prefix containing ..

---
 gen/build/src/error.rs |  7 +++++++
 gen/build/src/lib.rs   | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/error.rs b/gen/build/src/error.rs
index 16cb013..5220202 100644
--- a/gen/build/src/error.rs
+++ b/gen/build/src/error.rs
@@ -13,6 +13,7 @@ pub(super) enum Error {
     Fs(fs::Error),
     ExportedDirNotAbsolute(&'static Path),
     ExportedEmptyPrefix,
+    IncludePrefixParentDir(&'static str),
     ExportedDirsWithoutLinks,
     ExportedPrefixesWithoutLinks,
     ExportedLinksWithoutLinks,
@@ -48,6 +49,12 @@ impl Display for Error {
                 "element of {} must not be empty string",
                 expr!(CFG.exported_header_prefixes),
             ),
+            Error::IncludePrefixParentDir(prefix) => write!(
+                f,
+                "{} must not contain `..`, but was: {:?}",
+                expr!(CFG.include_prefix),
+                prefix,
+            ),
             Error::ExportedDirsWithoutLinks => write!(
                 f,
                 "if {} is nonempty then `links` needs to be set in Cargo.toml; see {}",
diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index f54eaa5..94da4a3 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -103,7 +103,7 @@ use std::env;
 use std::ffi::{OsStr, OsString};
 use std::io::{self, Write};
 use std::iter;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::process;
 
 pub use crate::cfg::{Cfg, CFG};
@@ -247,6 +247,14 @@ fn validate_cfg(prj: &Project) -> Result<()> {
         }
     }
 
+    if prj
+        .include_prefix
+        .components()
+        .any(|component| component == Component::ParentDir)
+    {
+        return Err(Error::IncludePrefixParentDir(CFG.include_prefix));
+    }
+
     if prj.links_attribute.is_none() {
         if !CFG.exported_header_dirs.is_empty() {
             return Err(Error::ExportedDirsWithoutLinks);
-- 
2.43.0


From 3a7916543f5f323655d865ff8a8376a3f39e19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:24 +0000
Subject: [PATCH 26/52] fix: CFG.include_prefix beginning with ./

---
 gen/build/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index 94da4a3..b4e25f9 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -163,7 +163,10 @@ impl Project {
     fn init() -> Result<Self> {
         let include_prefix = Path::new(CFG.include_prefix);
         assert!(include_prefix.is_relative());
-        let include_prefix = include_prefix.components().collect();
+        let include_prefix = include_prefix
+            .components()
+            .filter(|component| *component != Component::CurDir)
+            .collect();
 
         let links_attribute = env::var_os("CARGO_MANIFEST_LINKS");
 
-- 
2.43.0


From 340faf1242e9e915878cdca02a5b17d08718e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:36 +0000
Subject: [PATCH 27/52] fix: cxx-build ignored failure to link the crate's
 headers

---
 gen/build/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index b4e25f9..e89f224 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -274,7 +274,7 @@ fn validate_cfg(prj: &Project) -> Result<()> {
 }
 
 fn make_this_crate(prj: &Project) -> Result<Crate> {
-    let crate_dir = make_crate_dir(prj);
+    let crate_dir = make_crate_dir(prj)?;
     let include_dir = make_include_dir(prj)?;
 
     let mut this_crate = Crate {
@@ -369,9 +369,9 @@ fn make_this_crate(prj: &Project) -> Result<Crate> {
     Ok(this_crate)
 }
 
-fn make_crate_dir(prj: &Project) -> PathBuf {
+fn make_crate_dir(prj: &Project) -> Result<PathBuf> {
     if prj.include_prefix.as_os_str().is_empty() {
-        return prj.manifest_dir.clone();
+        return Ok(prj.manifest_dir.clone());
     }
     let crate_dir = prj.out_dir.join("cxxbridge").join("crate");
     let ref link = crate_dir.join(&prj.include_prefix);
@@ -387,7 +387,10 @@ fn make_crate_dir(prj: &Project) -> PathBuf {
         }
     }
     let ref manifest_dir = prj.manifest_dir;
-    if out::relative_symlink_dir(manifest_dir, link).is_err() && cfg!(not(unix)) {
+    if let Err(err) = out::relative_symlink_dir(manifest_dir, link) {
+        if cfg!(unix) {
+            return Err(err);
+        }
         let cachedir_tag = "\
         Signature: 8a477f597d28d172789f06886806bc55\n\
         # This file is a cache directory tag created by cxx.\n\
@@ -396,7 +399,7 @@ fn make_crate_dir(prj: &Project) -> PathBuf {
         let max_depth = 6;
         best_effort_copy_headers(manifest_dir, link, max_depth);
     }
-    crate_dir
+    Ok(crate_dir)
 }
 
 fn make_include_dir(prj: &Project) -> Result<PathBuf> {
-- 
2.43.0


From eb48d291d48b6993de5538b9c9dbc607f2b3db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:46 +0000
Subject: [PATCH 28/52] fix: element of exported_header_prefixes reported as
 unused although it matches

---
 gen/build/src/lib.rs | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index e89f224..cb0fc85 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -308,29 +308,27 @@ fn make_this_crate(prj: &Project) -> Result<Crate> {
     let mut used_header_links = BTreeSet::new();
     let mut used_header_prefixes = BTreeSet::new();
     for krate in deps::direct_dependencies() {
-        let mut is_link_exported = || match &krate.links {
-            None => false,
-            Some(links_attribute) => CFG.exported_header_links.iter().any(|&exported| {
-                let matches = links_attribute == exported;
-                if matches {
-                    used_header_links.insert(exported);
+        // Look at every element even once it is known that this dependency is
+        // exported, since each element must be recorded as used.
+        let mut exported = false;
+
+        if let Some(links_attribute) = &krate.links {
+            for &exported_links in &CFG.exported_header_links {
+                if links_attribute == exported_links {
+                    used_header_links.insert(exported_links);
+                    exported = true;
                 }
-                matches
-            }),
-        };
+            }
+        }
 
-        let mut is_prefix_exported = || match &krate.include_prefix {
-            None => false,
-            Some(include_prefix) => CFG.exported_header_prefixes.iter().any(|&exported| {
-                let matches = include_prefix.starts_with(exported);
-                if matches {
-                    used_header_prefixes.insert(exported);
+        if let Some(include_prefix) = &krate.include_prefix {
+            for &exported_prefix in &CFG.exported_header_prefixes {
+                if include_prefix.starts_with(exported_prefix) {
+                    used_header_prefixes.insert(exported_prefix);
+                    exported = true;
                 }
-                matches
-            }),
-        };
-
-        let exported = is_link_exported() || is_prefix_exported();
+            }
+        }
 
         for dir in krate.header_dirs {
             // Deduplicate dirs reachable via multiple transitive dependencies.
-- 
2.43.0


From 9e08384077d9f42b405172a98a87a8583f3e3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:25 +0000
Subject: [PATCH 29/52] fix: support unsafe extern Rust functions without
 arguments

---
 macro/src/expand.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 7dc1c6f..4391457 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1098,7 +1098,9 @@ fn expand_rust_function_shim_impl(
     let mut requires_closure;
     let mut call = match invoke {
         Some(_) => {
-            requires_closure = false;
+            // An unsafe function is not itself callable as FnOnce.
+            requires_closure = sig.unsafety.is_some();
+            requires_unsafe |= sig.unsafety.is_some();
             quote!(#local_name)
         }
         None => {
-- 
2.43.0


From 8f65bd85aa3fd8cd00cccd7d06d0cdf0e5a37a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:59 +0000
Subject: [PATCH 30/52] fix: returned pointers to types with elided lifetimes

---
 macro/src/expand.rs | 79 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 71 insertions(+), 8 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 4391457..169bd31 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -671,7 +671,16 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
         let call = quote_spanned! {span=>
             #local_name(#(#vars),*)
         };
-        match efn.ret.as_ref().and_then(elided_ref_return) {
+        let call = match efn.ret.as_ref().and_then(|ret| erased_return(ret, types)) {
+            Some((_, inner))
+                if is_rust_container(inner) || !types.is_considered_improper_ctype(inner) =>
+            {
+                let inner = expand_extern_type(inner, types, true);
+                quote_spanned!(span=> #call.cast::<#inner>())
+            }
+            _ => call,
+        };
+        match efn.ret.as_ref().and_then(|ret| raw_ref_return(ret, types)) {
             None => call,
             Some(ty) if is_void_pointer(ty, types) => call,
             Some(ty) => {
@@ -1162,11 +1171,20 @@ fn expand_rust_function_shim_impl(
     };
 
     if !sig.throws {
-        if let Some(Ref { pinned: true, .. }) = sig.ret.as_ref().and_then(elided_ref_return) {
+        if let Some(Ref { pinned: true, .. }) =
+            sig.ret.as_ref().and_then(|ret| raw_ref_return(ret, types))
+        {
             requires_closure = true;
             requires_unsafe = true;
             expr = quote_spanned!(span=> ::cxx::core::pin::Pin::into_inner_unchecked(#expr));
         }
+        if let Some((mutable, _)) = sig.ret.as_ref().and_then(|ret| erased_return(ret, types)) {
+            requires_closure = true;
+            expr = match mutable {
+                false => quote_spanned!(span=> <*const _>::cast(#expr)),
+                true => quote_spanned!(span=> <*mut _>::cast(#expr)),
+            };
+        }
     }
 
     let mut outparam = None;
@@ -1995,7 +2013,13 @@ fn expand_extern_return_type(ret: &Option<Type>, types: &Types, proper: bool) ->
         Some(ret) if !types.needs_indirect_abi(ret) => ret,
         _ => return TokenStream::new(),
     };
-    if let Some(ty) = elided_ref_return(ret) {
+    if let Some((mutable, _)) = erased_return(ret, types) {
+        return match mutable {
+            false => quote!(-> *const ::cxx::core::ffi::c_void),
+            true => quote!(-> *mut ::cxx::core::ffi::c_void),
+        };
+    }
+    if let Some(ty) = raw_ref_return(ret, types) {
         let inner = match &ty.inner {
             _ if proper && is_void_pointer(ty, types) => quote!(::cxx::core::ffi::c_void),
             inner if is_rust_container(inner) => expand_extern_type(inner, types, proper),
@@ -2010,16 +2034,55 @@ fn expand_extern_return_type(ret: &Option<Type>, types: &Types, proper: bool) ->
     quote!(-> #ty)
 }
 
-// A returned reference whose lifetime is elided. It is passed as a raw pointer
-// because the arguments it would need to borrow from do not necessarily have a
-// lifetime in the extern signature.
-fn elided_ref_return(ret: &Type) -> Option<&Ref> {
+// A returned reference whose lifetime is elided, or whose referent has elided
+// lifetimes. It is passed as a raw pointer because the arguments it would need
+// to borrow from do not necessarily have a lifetime in the extern signature.
+fn raw_ref_return<'a>(ret: &'a Type, types: &Types) -> Option<&'a Ref> {
     match ret {
-        Type::Ref(ty) if ty.lifetime.is_none() => Some(ty),
+        Type::Ref(ty) if ty.lifetime.is_none() || has_elided_lifetime(&ty.inner, types) => Some(ty),
         _ => None,
     }
 }
 
+// A returned pointer to a type with elided lifetimes. For the same reason, it
+// is passed as a pointer to void. Returns mutability and target of the pointer.
+fn erased_return<'a>(ret: &'a Type, types: &Types) -> Option<(bool, &'a Type)> {
+    let (mutable, inner) = match ret {
+        Type::RustBox(ty) | Type::UniquePtr(ty) => (true, &ty.inner),
+        Type::Ref(ty) => (ty.mutable, &ty.inner),
+        Type::Ptr(ty) => (ty.mutable, &ty.inner),
+        _ => return None,
+    };
+    has_elided_lifetime(inner, types).then_some((mutable, inner))
+}
+
+fn has_elided_lifetime(ty: &Type, types: &Types) -> bool {
+    let is_elided = |lifetime: &Lifetime| lifetime.ident == "_";
+    match ty {
+        Type::Ident(ident) => match types.try_resolve(ident) {
+            Some(resolve) if ident.generics.lt_token.is_none() => {
+                !resolve.generics.lifetimes.is_empty()
+            }
+            _ => ident.generics.lifetimes.iter().any(is_elided),
+        },
+        Type::RustBox(ty)
+        | Type::RustVec(ty)
+        | Type::UniquePtr(ty)
+        | Type::SharedPtr(ty)
+        | Type::WeakPtr(ty)
+        | Type::CxxVector(ty) => has_elided_lifetime(&ty.inner, types),
+        Type::Ref(ty) | Type::Str(ty) => {
+            ty.lifetime.as_ref().map_or(true, is_elided) || has_elided_lifetime(&ty.inner, types)
+        }
+        Type::SliceRef(ty) => {
+            ty.lifetime.as_ref().map_or(true, is_elided) || has_elided_lifetime(&ty.inner, types)
+        }
+        Type::Ptr(ty) => has_elided_lifetime(&ty.inner, types),
+        Type::Array(ty) => has_elided_lifetime(&ty.inner, types),
+        Type::Fn(_) | Type::Void(_) => false,
+    }
+}
+
 // Whether expand_extern_type expands the reference to a pointer to void in an
 // extern "C++" signature.
 fn is_void_pointer(ty: &Ref, types: &Types) -> bool {
-- 
2.43.0


From ba75aeeaee54408ff99b3050ae9b2173340195d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:45 +0000
Subject: [PATCH 31/52] fix: extern types by value in function pointers were
 not required to be trivial

---
 syntax/trivial.rs | 57 ++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/syntax/trivial.rs b/syntax/trivial.rs
index 9533400..a3e9dcd 100644
--- a/syntax/trivial.rs
+++ b/syntax/trivial.rs
@@ -3,6 +3,7 @@ use crate::syntax::set::{OrderedSet as Set, UnorderedSet};
 use crate::syntax::{Api, Enum, ExternFn, NamedType, Pair, Struct, Type};
 use proc_macro2::Ident;
 use std::fmt::{self, Display};
+use std::iter;
 
 #[derive(Copy, Clone)]
 pub(crate) enum TrivialReason<'a> {
@@ -53,38 +54,44 @@ pub(crate) fn required_trivial_reasons<'a>(
                         insist_extern_types_are_trivial(&receiver.ty, reason);
                     }
                 }
-                for arg in &efn.args {
-                    match &arg.ty {
-                        Type::Ident(ident) => {
-                            let reason = TrivialReason::FunctionArgument(efn);
-                            insist_extern_types_are_trivial(ident, reason);
-                        }
-                        Type::Ref(ty) => {
-                            if ty.mutable && !ty.pinned {
-                                if let Type::Ident(ident) = &ty.inner {
-                                    let reason = TrivialReason::UnpinnedMut(efn);
-                                    insist_extern_types_are_trivial(ident, reason);
+                let callbacks = efn.args.iter().filter_map(|arg| match &arg.ty {
+                    Type::Fn(sig) => Some(&**sig),
+                    _ => None,
+                });
+                for sig in iter::once(&efn.sig).chain(callbacks) {
+                    for arg in &sig.args {
+                        match &arg.ty {
+                            Type::Ident(ident) => {
+                                let reason = TrivialReason::FunctionArgument(efn);
+                                insist_extern_types_are_trivial(ident, reason);
+                            }
+                            Type::Ref(ty) => {
+                                if ty.mutable && !ty.pinned {
+                                    if let Type::Ident(ident) = &ty.inner {
+                                        let reason = TrivialReason::UnpinnedMut(efn);
+                                        insist_extern_types_are_trivial(ident, reason);
+                                    }
                                 }
                             }
+                            _ => {}
                         }
-                        _ => {}
                     }
-                }
-                if let Some(ret) = &efn.ret {
-                    match ret {
-                        Type::Ident(ident) => {
-                            let reason = TrivialReason::FunctionReturn(efn);
-                            insist_extern_types_are_trivial(ident, reason);
-                        }
-                        Type::Ref(ty) => {
-                            if ty.mutable && !ty.pinned {
-                                if let Type::Ident(ident) = &ty.inner {
-                                    let reason = TrivialReason::UnpinnedMut(efn);
-                                    insist_extern_types_are_trivial(ident, reason);
+                    if let Some(ret) = &sig.ret {
+                        match ret {
+                            Type::Ident(ident) => {
+                                let reason = TrivialReason::FunctionReturn(efn);
+                                insist_extern_types_are_trivial(ident, reason);
+                            }
+                            Type::Ref(ty) => {
+                                if ty.mutable && !ty.pinned {
+                                    if let Type::Ident(ident) = &ty.inner {
+                                        let reason = TrivialReason::UnpinnedMut(efn);
+                                        insist_extern_types_are_trivial(ident, reason);
+                                    }
                                 }
                             }
+                            _ => {}
                         }
-                        _ => {}
                     }
                 }
             }
-- 
2.43.0


From 9b7aa72a3a5408ada484f6c7a71a189756043e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:59 +0000
Subject: [PATCH 32/52] fix: reject opaque types by value in function pointers

---
 syntax/check.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 39ee0b0..bdae979 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -311,6 +311,18 @@ fn check_type_fn(cx: &mut Check, ty: &Signature) {
                     "pointer argument requires that the function pointer be marked unsafe",
                 );
             }
+        } else if is_unsized(cx, &arg.ty) {
+            let desc = describe(cx, &arg.ty);
+            let msg = format!("passing {} by value is not supported", desc);
+            cx.error(arg, msg);
+        }
+    }
+
+    if let Some(ret) = &ty.ret {
+        if is_unsized(cx, ret) {
+            let desc = describe(cx, ret);
+            let msg = format!("returning {} by value is not supported", desc);
+            cx.error(ret, msg);
         }
     }
 }
-- 
2.43.0


From d688634a0782594ef841dc42da37b32921348188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 33/52] fix: reject Pin<Pin<&mut T>> instead of treating it as
 Pin<&mut T>

---
 syntax/parse.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 47bab8e..eae4a69 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -1292,11 +1292,14 @@ fn parse_type_path(ty: &TypePath) -> Result<Type> {
                     if let GenericArgument::Type(arg) = &generic.args[0] {
                         let inner = parse_type(arg)?;
                         let pin_token = kw::Pin(ident.span());
-                        if let Type::Ref(mut inner) = inner {
-                            inner.pinned = true;
-                            inner.pin_tokens =
-                                Some((pin_token, generic.lt_token, generic.gt_token));
-                            return Ok(Type::Ref(inner));
+                        match inner {
+                            Type::Ref(mut inner) if !inner.pinned => {
+                                inner.pinned = true;
+                                inner.pin_tokens =
+                                    Some((pin_token, generic.lt_token, generic.gt_token));
+                                return Ok(Type::Ref(inner));
+                            }
+                            _ => {}
                         }
                     }
                 } else {
-- 
2.43.0


From 179e79175237a342a782a2c1f5ecd21defa7297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 34/52] fix: reject pinned references to String and Vec, which
 do not compile

---
 syntax/check.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index bdae979..4fdc43c 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -244,6 +244,21 @@ fn check_type_ref(cx: &mut Check, ty: &Ref) {
         }
     }
 
+    if ty.pinned {
+        if let Some(unpinned) = match &ty.inner {
+            Type::Ident(ident) if ident.rust == RustString => Some("String"),
+            Type::RustVec(_) => Some("Vec<...>"),
+            _ => None,
+        } {
+            let mutable = if ty.mutable { "mut " } else { "" };
+            let msg = format!(
+                "pinned reference to {0} is not supported -- use &{1}{0}",
+                unpinned, mutable,
+            );
+            cx.error(ty, msg);
+        }
+    }
+
     match ty.inner {
         Type::Fn(_) | Type::Void(_) => {}
         Type::Ref(_) => {
-- 
2.43.0


From 86a885a904989c517676d82fc708547b23564df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 35/52] fix: returned Pin<&T> whose referent has elided
 lifetimes

---
 macro/src/expand.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 169bd31..a9f9ad6 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -1171,12 +1171,17 @@ fn expand_rust_function_shim_impl(
     };
 
     if !sig.throws {
-        if let Some(Ref { pinned: true, .. }) =
-            sig.ret.as_ref().and_then(|ret| raw_ref_return(ret, types))
+        if let Some(Ref {
+            pinned: true,
+            mutability,
+            ..
+        }) = sig.ret.as_ref().and_then(|ret| raw_ref_return(ret, types))
         {
             requires_closure = true;
             requires_unsafe = true;
-            expr = quote_spanned!(span=> ::cxx::core::pin::Pin::into_inner_unchecked(#expr));
+            expr = quote_spanned! {span=>
+                ::cxx::core::pin::Pin::<&#mutability _>::into_inner_unchecked(#expr)
+            };
         }
         if let Some((mutable, _)) = sig.ret.as_ref().and_then(|ret| erased_return(ret, types)) {
             requires_closure = true;
-- 
2.43.0


From b6a1468f1b3f74d839bb321602594bfbfbb0cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 36/52] fix: clang warning about function pointers whose
 trampoline returns a C++ type

---
 gen/src/write.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 02dc13b..65636f8 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -935,7 +935,23 @@ fn write_function_pointer_trampoline(out: &mut OutFile, efn: &ExternFn, var: &Pa
     out.next_section();
     let c_trampoline = mangle::c_trampoline(efn, var, out.types).to_string();
     let doc = Doc::new();
+    if f.ret.is_some() {
+        // Only C++ calls the trampoline; it is extern "C" for the sake of its
+        // symbol name.
+        writeln!(out, "#ifdef __clang__");
+        writeln!(out, "#pragma clang diagnostic push");
+        writeln!(
+            out,
+            "#pragma clang diagnostic ignored \"-Wreturn-type-c-linkage\"",
+        );
+        writeln!(out, "#endif // __clang__");
+    }
     write_rust_function_shim_impl(out, &c_trampoline, f, &doc, &r_trampoline, indirect_call);
+    if f.ret.is_some() {
+        writeln!(out, "#ifdef __clang__");
+        writeln!(out, "#pragma clang diagnostic pop");
+        writeln!(out, "#endif // __clang__");
+    }
 }
 
 fn write_rust_function_decl<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
-- 
2.43.0


From 2ffba8e1a1783b69a3109152330be982472dbdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 37/52] fix: reject slices and arrays of references

---
 syntax/check.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 4fdc43c..514917d 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -285,6 +285,11 @@ fn check_type_ptr(cx: &mut Check, ty: &Ptr) {
 }
 
 fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
+    if let Type::Ref(_) = ty.inner {
+        cx.error(ty, "C++ does not allow slices of references");
+        return;
+    }
+
     let supported = !is_unsized(cx, &ty.inner)
         || match &ty.inner {
             Type::Ident(ident) => {
@@ -306,6 +311,11 @@ fn check_type_slice_ref(cx: &mut Check, ty: &SliceRef) {
 }
 
 fn check_type_array(cx: &mut Check, ty: &Array) {
+    if let Type::Ref(_) = ty.inner {
+        cx.error(ty, "C++ does not allow arrays of references");
+        return;
+    }
+
     let supported = !is_unsized(cx, &ty.inner);
 
     if !supported {
-- 
2.43.0


From 7d232e8bd0ebb5cb9bb4d318e7efb3f4d31c8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 38/52] fix: reject type aliases that take the name of a
 builtin type

---
 syntax/check.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 514917d..47bc720 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -538,6 +538,7 @@ fn check_api_fn(cx: &mut Check, efn: &ExternFn) {
 }
 
 fn check_api_type_alias(cx: &mut Check, alias: &TypeAlias) {
+    check_reserved_name(cx, &alias.name.rust);
     check_lifetimes(cx, &alias.generics);
 
     for derive in &alias.derives {
-- 
2.43.0


From e6ca6c129b0579fc6c91affc95fa7aa13328dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 39/52] fix: &mut inside a function pointer argument does not
 justify a &mut return type

---
 syntax/check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 47bc720..08efedc 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -608,6 +608,11 @@ fn check_mut_return_restriction(cx: &mut Check, efn: &ExternFn) {
 
     impl<'t, 'a> Visit<'t> for FindLifetimeMut<'a> {
         fn visit_type(&mut self, ty: &'t Type) {
+            if let Type::Fn(_) = ty {
+                // References in the signature of a function pointer are not
+                // borrowed by the caller of this function.
+                return;
+            }
             self.found |= match ty {
                 Type::Ref(ty) => ty.mutable,
                 Type::SliceRef(slice) => slice.mutable,
-- 
2.43.0


From bb27d585102334a2a527286eae7a5118b8de69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 40/52] fix: argument named error of a fallible Rust function

---
 gen/src/write.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 65636f8..1fffdfd 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -1155,7 +1155,7 @@ fn write_rust_function_shim_impl(
     }
     if sig.throws {
         out.builtin.ptr_len = true;
-        write!(out, "::rust::repr::PtrLen error$ = ");
+        write!(out, "::rust::repr::PtrLen throw$ = ");
     }
     write!(out, "{}(", invoke);
     let mut needs_comma = false;
@@ -1203,8 +1203,8 @@ fn write_rust_function_shim_impl(
     writeln!(out, ";");
     if sig.throws {
         out.builtin.rust_error = true;
-        writeln!(out, "  if (error$.ptr) {{");
-        writeln!(out, "    throw ::rust::impl<::rust::Error>::error(error$);");
+        writeln!(out, "  if (throw$.ptr) {{");
+        writeln!(out, "    throw ::rust::impl<::rust::Error>::error(throw$);");
         writeln!(out, "  }}");
     }
     if indirect_return {
-- 
2.43.0


From 2d3782d5315476d842d8890d244255c8001b2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 41/52] fix: elided lifetimes of types written with empty angle
 brackets

---
 macro/src/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index a9f9ad6..48148a6 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -2065,7 +2065,7 @@ fn has_elided_lifetime(ty: &Type, types: &Types) -> bool {
     let is_elided = |lifetime: &Lifetime| lifetime.ident == "_";
     match ty {
         Type::Ident(ident) => match types.try_resolve(ident) {
-            Some(resolve) if ident.generics.lt_token.is_none() => {
+            Some(resolve) if ident.generics.lifetimes.is_empty() => {
                 !resolve.generics.lifetimes.is_empty()
             }
             _ => ident.generics.lifetimes.iter().any(is_elided),
-- 
2.43.0


From 31808951fc965d3ed790057d54a39502318e2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 42/52] fix: symbol of methods of same-named types in different
 namespaces

---
 syntax/mangle.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/syntax/mangle.rs b/syntax/mangle.rs
index 6f01965..fd099f0 100644
--- a/syntax/mangle.rs
+++ b/syntax/mangle.rs
@@ -35,11 +35,11 @@
 //          FIXME: conflict with (a) if they collide with one of our one-off symbol names in the global namespace
 //
 //   (e) User-defined extern member function.
-//          pattern:  {NAMESPACE...} $ {CXXBRIDGE} $ {TYPE} $ {NAME}
+//          pattern:  {NAMESPACE...} $ {CXXBRIDGE} $ {TYPE NAMESPACE...} $ {TYPE} $ {NAME}
 //          examples:
-//             - org$cxxbridge1$Struct$get
+//             - org$cxxbridge1$org$Struct$get
 //          defining characteristics:
-//             - cxxbridge is third from end
+//             - cxxbridge is third from end or earlier
 //          FIXME: conflict with (b) if e.g. user binds a type in global namespace that collides with our builtin type names
 //
 //   (f) Operator overload.
@@ -50,9 +50,9 @@
 //             - second segment from end is `operator` (not possible in type or namespace names)
 //
 //   (g) Closure trampoline.
-//          pattern:  {NAMESPACE...} $ {CXXBRIDGE} $ {TYPE?} $ {NAME} $ {ARGUMENT} $ {DIRECTION}
+//          pattern:  {NAMESPACE...} $ {CXXBRIDGE} $ {TYPE...?} $ {NAME} $ {ARGUMENT} $ {DIRECTION}
 //          examples:
-//             - org$rust$cxxbridge1$Struct$invoke$f$0
+//             - org$rust$cxxbridge1$org$rust$Struct$invoke$f$0
 //          defining characteristics:
 //             - last symbol is `0` (C half) or `1` (Rust half) which are not legal identifiers on their own
 //
@@ -91,6 +91,7 @@ pub(crate) fn extern_fn(efn: &ExternFn, types: &Types) -> Symbol {
             join!(
                 efn.name.namespace,
                 CXXBRIDGE,
+                receiver_ident.name.namespace,
                 receiver_ident.name.cxx,
                 efn.name.rust,
             )
-- 
2.43.0


From 4cffb3bdc833bceccb510db9b0229649e22aed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 43/52] fix: names given to unnamed arguments

---
 syntax/parse.rs | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index eae4a69..5648c3b 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -10,7 +10,7 @@ use crate::syntax::{
     Signature, SliceRef, Struct, Ty1, Type, TypeAlias, Var, Variant,
 };
 use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
-use quote::{format_ident, quote, quote_spanned};
+use quote::{quote, quote_spanned};
 use std::mem;
 use syn::parse::{ParseStream, Parser};
 use syn::punctuated::Punctuated;
@@ -640,7 +640,14 @@ fn parse_extern_fn(
                 let ident = match arg.pat.as_ref() {
                     Pat::Ident(pat) => pat.ident.clone(),
                     Pat::Wild(pat) => {
-                        Ident::new(&format!("arg{}", args.len()), pat.underscore_token.span)
+                        let names = foreign_fn.sig.inputs.iter().filter_map(|arg| match arg {
+                            FnArg::Typed(arg) => match arg.pat.as_ref() {
+                                Pat::Ident(pat) => Some(&pat.ident),
+                                _ => None,
+                            },
+                            FnArg::Receiver(_) => None,
+                        });
+                        unnamed_arg(args.len(), pat.underscore_token.span, names)
                     }
                     _ => return Err(Error::new_spanned(arg, "unsupported signature")),
                 };
@@ -1394,11 +1401,19 @@ fn parse_type_fn(ty: &TypeBareFn) -> Result<Type> {
         .iter()
         .enumerate()
         .map(|(i, arg)| {
+            let names = || {
+                let names = ty.inputs.iter().filter_map(|arg| arg.name.as_ref());
+                names.map(|(ident, _colon_token)| ident)
+            };
             let (ident, colon_token) = match &arg.name {
-                Some((ident, colon_token)) => (ident.clone(), *colon_token),
-                None => {
+                Some((ident, colon_token))
+                    if ident != "_" && names().filter(|name| *name == ident).count() == 1 =>
+                {
+                    (ident.clone(), *colon_token)
+                }
+                _ => {
                     let fn_span = ty.paren_token.span.join();
-                    let ident = format_ident!("arg{}", i, span = fn_span);
+                    let ident = unnamed_arg(i, fn_span, names());
                     let colon_token = Token![:](fn_span);
                     (ident, colon_token)
                 }
@@ -1446,6 +1461,17 @@ fn parse_type_fn(ty: &TypeBareFn) -> Result<Type> {
     })))
 }
 
+// Identifier for an argument that does not have a name, distinct from the names
+// of the other arguments.
+fn unnamed_arg<'a>(index: usize, span: Span, names: impl Iterator<Item = &'a Ident>) -> Ident {
+    let names: Vec<String> = names.map(Ident::to_string).collect();
+    let mut ident = format!("arg{}", index);
+    while names.contains(&ident) {
+        ident.push('x');
+    }
+    Ident::new(&ident, span)
+}
+
 fn parse_return_type(
     ty: &ReturnType,
     throws_tokens: &mut Option<(kw::Result, Token![<], Token![>])>,
-- 
2.43.0


From 76a4b1be6a8f7252d619d168933bf2358ea2ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:20 +0000
Subject: [PATCH 44/52] fix: returned pointers to containers of types with
 elided lifetimes

---
 macro/src/expand.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 48148a6..ba2aae5 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -675,7 +675,12 @@ fn expand_cxx_function_shim(efn: &ExternFn, types: &Types) -> TokenStream {
             Some((_, inner))
                 if is_rust_container(inner) || !types.is_considered_improper_ctype(inner) =>
             {
-                let inner = expand_extern_type(inner, types, true);
+                let inner = match efn.ret {
+                    Some(Type::Ref(_)) if is_rust_container(inner) => {
+                        expand_extern_type(inner, types, true)
+                    }
+                    _ => quote!(#inner),
+                };
                 quote_spanned!(span=> #call.cast::<#inner>())
             }
             _ => call,
-- 
2.43.0


From dcd7e10fa303b8551adcfc78c72020a17a412131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 45/52] fix: clang warning about functions that return a struct
 with a reference in it

---
 gen/src/write.rs | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 1fffdfd..c135ce1 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -760,6 +760,8 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
     out.next_section();
     out.set_namespace(&efn.name.namespace);
     out.begin_block(Block::ExternC);
+    let non_c_return = is_non_c_return(efn, out.types);
+    begin_non_c_return(out, non_c_return);
     begin_function_definition(out);
     if efn.throws {
         out.builtin.ptr_len = true;
@@ -918,6 +920,7 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
         writeln!(out, "  return throw$;");
     }
     writeln!(out, "}}");
+    end_non_c_return(out, non_c_return);
     for arg in &efn.args {
         if let Type::Fn(f) = &arg.ty {
             let var = &arg.name;
@@ -935,9 +938,16 @@ fn write_function_pointer_trampoline(out: &mut OutFile, efn: &ExternFn, var: &Pa
     out.next_section();
     let c_trampoline = mangle::c_trampoline(efn, var, out.types).to_string();
     let doc = Doc::new();
-    if f.ret.is_some() {
-        // Only C++ calls the trampoline; it is extern "C" for the sake of its
-        // symbol name.
+    // Only C++ calls the trampoline; it is extern "C" for the sake of its symbol
+    // name.
+    let non_c_return = f.ret.is_some();
+    begin_non_c_return(out, non_c_return);
+    write_rust_function_shim_impl(out, &c_trampoline, f, &doc, &r_trampoline, indirect_call);
+    end_non_c_return(out, non_c_return);
+}
+
+fn begin_non_c_return(out: &mut OutFile, non_c_return: bool) {
+    if non_c_return {
         writeln!(out, "#ifdef __clang__");
         writeln!(out, "#pragma clang diagnostic push");
         writeln!(
@@ -946,14 +956,39 @@ fn write_function_pointer_trampoline(out: &mut OutFile, efn: &ExternFn, var: &Pa
         );
         writeln!(out, "#endif // __clang__");
     }
-    write_rust_function_shim_impl(out, &c_trampoline, f, &doc, &r_trampoline, indirect_call);
-    if f.ret.is_some() {
+}
+
+fn end_non_c_return(out: &mut OutFile, non_c_return: bool) {
+    if non_c_return {
         writeln!(out, "#ifdef __clang__");
         writeln!(out, "#pragma clang diagnostic pop");
         writeln!(out, "#endif // __clang__");
     }
 }
 
+// A shared struct that has a reference in it is ABI compatible with a C struct,
+// but has no equivalent in C.
+fn is_non_c_return(sig: &Signature, types: &Types) -> bool {
+    fn contains_reference(ty: &Type, types: &Types) -> bool {
+        match ty {
+            Type::Ref(_) => true,
+            Type::Array(array) => contains_reference(&array.inner, types),
+            Type::Ident(ident) => types.structs.get(&ident.rust).is_some_and(|strct| {
+                let mut fields = strct.fields.iter();
+                fields.any(|field| contains_reference(&field.ty, types))
+            }),
+            _ => false,
+        }
+    }
+
+    match &sig.ret {
+        Some(ret @ Type::Ident(_)) => {
+            !indirect_return(sig, types) && contains_reference(ret, types)
+        }
+        _ => false,
+    }
+}
+
 fn write_rust_function_decl<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
     out.set_namespace(rust_function_namespace(efn, out.types));
     out.begin_block(Block::ExternC);
@@ -970,6 +1005,8 @@ fn write_rust_function_decl_impl(
     indirect_call: bool,
 ) {
     out.next_section();
+    let non_c_return = is_non_c_return(sig, out.types);
+    begin_non_c_return(out, non_c_return);
     if sig.throws {
         out.builtin.ptr_len = true;
         write!(out, "::rust::repr::PtrLen ");
@@ -1021,6 +1058,7 @@ fn write_rust_function_decl_impl(
         write!(out, "void *");
     }
     writeln!(out, ") noexcept;");
+    end_non_c_return(out, non_c_return);
 }
 
 // A member function must be defined in a namespace that encloses its class.
-- 
2.43.0


From 128956f1e85e963036261e98d1e9fd96e242cc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 46/52] fix: elided lifetimes of methods implemented in Rust

---
 macro/src/expand.rs | 105 ++++++++++++++++++++++++++++++++++++++++----
 macro/src/tokens.rs |  18 +++++---
 2 files changed, 109 insertions(+), 14 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index ba2aae5..3ac7971 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -15,7 +15,9 @@ use crate::{derive, generics};
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use std::mem;
-use syn::{parse_quote, punctuated, Generics, Lifetime, Result, Token};
+use syn::{
+    parse_quote, punctuated, GenericParam, Generics, Lifetime, LifetimeParam, Result, Token,
+};
 
 pub(crate) fn bridge(mut ffi: Module) -> Result<TokenStream> {
     let ref mut errors = Errors::new();
@@ -1107,7 +1109,8 @@ fn expand_rust_function_shim_impl(
     });
     let vars: Vec<_> = receiver_var.into_iter().chain(arg_vars).collect();
 
-    let wrap_super = invoke.map(|invoke| expand_rust_function_shim_super(sig, &local_name, invoke));
+    let wrap_super =
+        invoke.map(|invoke| expand_rust_function_shim_super(sig, types, &local_name, invoke));
 
     let mut requires_closure;
     let mut call = match invoke {
@@ -1258,28 +1261,49 @@ fn expand_rust_function_shim_impl(
 // accurate unsafety declaration and no problematic elided lifetimes.
 fn expand_rust_function_shim_super(
     sig: &Signature,
+    types: &Types,
     local_name: &Ident,
     invoke: &Ident,
 ) -> TokenStream {
     let unsafety = sig.unsafety;
-    let generics = &sig.generics;
+    let mut generics = sig.generics.clone();
+
+    // Elided lifetimes in the return type of a method are that of its receiver.
+    // The wrapper is not a method, so this needs to be spelled out.
+    let mut self_lifetime = None;
+    if let (Some(receiver), Some(ret)) = (&sig.receiver, &sig.ret) {
+        if !sig.args.is_empty() && has_elided_lifetime(ret, types) {
+            self_lifetime = Some(match &receiver.lifetime {
+                Some(lifetime) if lifetime.ident != "_" => lifetime.clone(),
+                _ => {
+                    let lifetime = Lifetime::new("'__self", receiver.ampersand.span);
+                    generics.params.insert(
+                        0,
+                        GenericParam::Lifetime(LifetimeParam::new(lifetime.clone())),
+                    );
+                    lifetime
+                }
+            });
+        }
+    }
 
     let receiver_var = sig
         .receiver
         .as_ref()
         .map(|receiver| Ident::new("__self", receiver.var.span));
     let receiver = sig.receiver.iter().map(|receiver| {
-        let receiver_type = receiver.ty();
+        let receiver_type = receiver.ty_with_lifetime(self_lifetime.as_ref());
         quote!(#receiver_var: #receiver_type)
     });
     let args = sig.args.iter().map(|arg| quote!(#arg));
     let all_args = receiver.chain(args);
 
+    let ret = sig.ret.as_ref().map(|ret| match &self_lifetime {
+        Some(lifetime) => expand_with_elided_lifetime(ret, lifetime, types),
+        None => quote!(#ret),
+    });
     let ret = if let Some((result, _langle, rangle)) = sig.throws_tokens {
-        let ok = match &sig.ret {
-            Some(ret) => quote!(#ret),
-            None => quote!(()),
-        };
+        let ok = ret.unwrap_or_else(|| quote!(()));
         // Set spans that result in the `Result<...>` written by the user being
         // highlighted as the cause if their error type has no Display impl.
         let result_begin = quote_spanned!(result.span=> ::cxx::core::result::Result<#ok, impl);
@@ -1291,7 +1315,7 @@ fn expand_rust_function_shim_super(
         };
         quote!(-> #result_begin #result_end)
     } else {
-        expand_return_type(&sig.ret)
+        ret.map_or_else(TokenStream::new, |ret| quote!(-> #ret))
     };
 
     let arg_vars = sig.args.iter().map(|arg| &arg.name.rust);
@@ -2093,6 +2117,69 @@ fn has_elided_lifetime(ty: &Type, types: &Types) -> bool {
     }
 }
 
+// The type with the given lifetime in place of every elided one.
+fn expand_with_elided_lifetime(ty: &Type, lifetime: &Lifetime, types: &Types) -> TokenStream {
+    if !has_elided_lifetime(ty, types) {
+        return quote!(#ty);
+    }
+    let explicit = |given: &Option<Lifetime>| match given {
+        Some(given) if given.ident != "_" => given.clone(),
+        _ => lifetime.clone(),
+    };
+    match ty {
+        Type::Ident(ident) => {
+            let name = &ident.rust;
+            let given = &ident.generics.lifetimes;
+            let lifetimes: Vec<Lifetime> = if given.is_empty() {
+                let declared = &types.resolve(ident).generics.lifetimes;
+                declared.iter().map(|_| lifetime.clone()).collect()
+            } else {
+                given.iter().map(|l| explicit(&Some(l.clone()))).collect()
+            };
+            quote!(#name<#(#lifetimes),*>)
+        }
+        Type::RustBox(ty1) | Type::RustVec(ty1) => {
+            let path = match ty {
+                Type::RustBox(_) => quote!(::cxx::alloc::boxed::Box),
+                _ => quote!(::cxx::alloc::vec::Vec),
+            };
+            let inner = expand_with_elided_lifetime(&ty1.inner, lifetime, types);
+            quote!(#path<#inner>)
+        }
+        Type::UniquePtr(ty) | Type::SharedPtr(ty) | Type::WeakPtr(ty) | Type::CxxVector(ty) => {
+            let name = &ty.name;
+            let inner = expand_with_elided_lifetime(&ty.inner, lifetime, types);
+            quote!(::cxx::#name<#inner>)
+        }
+        Type::Ref(ty) | Type::Str(ty) => {
+            let ref_lifetime = explicit(&ty.lifetime);
+            let mutability = ty.mutability;
+            let inner = expand_with_elided_lifetime(&ty.inner, lifetime, types);
+            match ty.pinned {
+                false => quote!(&#ref_lifetime #mutability #inner),
+                true => quote!(::cxx::core::pin::Pin<&#ref_lifetime #mutability #inner>),
+            }
+        }
+        Type::SliceRef(ty) => {
+            let ref_lifetime = explicit(&ty.lifetime);
+            let mutability = ty.mutability;
+            let inner = expand_with_elided_lifetime(&ty.inner, lifetime, types);
+            quote!(&#ref_lifetime #mutability [#inner])
+        }
+        Type::Ptr(ty) => {
+            let (mutability, constness) = (ty.mutability, ty.constness);
+            let inner = expand_with_elided_lifetime(&ty.inner, lifetime, types);
+            quote!(*#mutability #constness #inner)
+        }
+        Type::Array(ty) => {
+            let len = &ty.len_token;
+            let inner = expand_with_elided_lifetime(&ty.inner, lifetime, types);
+            quote!([#inner; #len])
+        }
+        Type::Fn(_) | Type::Void(_) => quote!(#ty),
+    }
+}
+
 // Whether expand_extern_type expands the reference to a pointer to void in an
 // extern "C++" signature.
 fn is_void_pointer(ty: &Ref, types: &Types) -> bool {
diff --git a/macro/src/tokens.rs b/macro/src/tokens.rs
index f3512a7..52b84e9 100644
--- a/macro/src/tokens.rs
+++ b/macro/src/tokens.rs
@@ -1,15 +1,23 @@
 use crate::syntax::Receiver;
 use proc_macro2::TokenStream;
 use quote::{quote_spanned, ToTokens};
-use syn::Token;
+use syn::{Lifetime, Token};
 
-pub(crate) struct ReceiverType<'a>(&'a Receiver);
+pub(crate) struct ReceiverType<'a>(&'a Receiver, Option<&'a Lifetime>);
 pub(crate) struct ReceiverTypeSelf<'a>(&'a Receiver);
 
 impl Receiver {
     // &TheType
     pub(crate) fn ty(&self) -> ReceiverType {
-        ReceiverType(self)
+        ReceiverType(self, self.lifetime.as_ref())
+    }
+
+    // &'lifetime TheType
+    pub(crate) fn ty_with_lifetime<'a>(
+        &'a self,
+        lifetime: Option<&'a Lifetime>,
+    ) -> ReceiverType<'a> {
+        ReceiverType(self, lifetime.or(self.lifetime.as_ref()))
     }
 
     // &Self
@@ -23,7 +31,7 @@ impl ToTokens for ReceiverType<'_> {
         let Receiver {
             pinned: _,
             ampersand,
-            lifetime,
+            lifetime: _,
             mutable: _,
             var: _,
             colon_token: _,
@@ -37,7 +45,7 @@ impl ToTokens for ReceiverType<'_> {
             langle.to_tokens(tokens);
         }
         ampersand.to_tokens(tokens);
-        lifetime.to_tokens(tokens);
+        self.1.to_tokens(tokens);
         mutability.to_tokens(tokens);
         ty.to_tokens(tokens);
         if let Some((_pin, _langle, rangle)) = pin_tokens {
-- 
2.43.0


From 5e9cbef3472748657a92ea1b1b40fc3ded58ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 47/52] fix: documentation whose line ends in a backslash
 comments out no code

---
 gen/src/write.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index c135ce1..e57b774 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -266,11 +266,19 @@ fn pick_includes_and_builtins(out: &mut OutFile, apis: &[Api]) {
 
 fn write_doc(out: &mut OutFile, indent: &str, doc: &Doc) {
     let mut lines = 0;
-    for line in doc.to_string().lines() {
+    let text = doc.to_string().replace("\r\n", "\n");
+    for line in text.split_terminator(['\n', '\r']) {
+        // A line which ends with a backslash (or the trigraph for one) would
+        // turn the next line of generated code into part of the comment, even
+        // if there is whitespace after the backslash.
+        let ignored = |c: char| matches!(c, ' ' | '\t' | '\x0b' | '\x0c' | '\0');
+        let last = line.trim_end_matches(ignored);
+        let splices = last.ends_with('\\') || last.ends_with("??/");
+        let terminator = if splices { " ." } else { "" };
         if out.opt.doxygen {
-            writeln!(out, "{}///{}", indent, line);
+            writeln!(out, "{}///{}{}", indent, line, terminator);
         } else {
-            writeln!(out, "{}//{}", indent, line);
+            writeln!(out, "{}//{}{}", indent, line, terminator);
         }
         lines += 1;
     }
-- 
2.43.0


From 8635606c09d60376c1dbba6fc3dae2e853ac671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 48/52] fix: include! names the header file verbatim

---
 gen/src/include.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/src/include.rs b/gen/src/include.rs
index 3f1f754..df7cdd7 100644
--- a/gen/src/include.rs
+++ b/gen/src/include.rs
@@ -74,7 +74,8 @@ pub(super) fn write(out: &mut OutFile) {
     for include in &include.custom {
         match include.kind {
             IncludeKind::Quoted => {
-                writeln!(out, "#include \"{}\"", include.path.escape_default());
+                // A header name is not a string literal: it has no escapes.
+                writeln!(out, "#include \"{}\"", include.path);
             }
             IncludeKind::Bracketed => {
                 writeln!(out, "#include <{}>", include.path);
-- 
2.43.0


From ca63c2acfc59e5165c65ff23949622a69e01af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 49/52] fix: accept a byte order mark in front of a shebang
 line

---
 gen/src/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/src/mod.rs b/gen/src/mod.rs
index 092dd70..8ef3974 100644
--- a/gen/src/mod.rs
+++ b/gen/src/mod.rs
@@ -131,7 +131,8 @@ fn read_to_string(path: &Path) -> Result<String> {
 }
 
 fn generate_from_string(source: &str, opt: &Opt) -> Result<GeneratedCode> {
-    let mut source = source;
+    // As in rustc, a shebang line may be preceded by a byte order mark.
+    let mut source = source.strip_prefix('\u{feff}').unwrap_or(source);
     if source.starts_with("#!") && !source[2..].trim_start().starts_with('[') {
         let shebang_end = source.find('\n').unwrap_or(source.len());
         source = &source[shebang_end..];
-- 
2.43.0


From 6e5c31764c7be0c29c00ceef08a575468b1c2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:01 +0000
Subject: [PATCH 50/52] fix: comments between #! and [ do not make a shebang
 line

---
 gen/src/mod.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/gen/src/mod.rs b/gen/src/mod.rs
index 8ef3974..e3e44c5 100644
--- a/gen/src/mod.rs
+++ b/gen/src/mod.rs
@@ -133,7 +133,7 @@ fn read_to_string(path: &Path) -> Result<String> {
 fn generate_from_string(source: &str, opt: &Opt) -> Result<GeneratedCode> {
     // As in rustc, a shebang line may be preceded by a byte order mark.
     let mut source = source.strip_prefix('\u{feff}').unwrap_or(source);
-    if source.starts_with("#!") && !source[2..].trim_start().starts_with('[') {
+    if source.starts_with("#!") && !skip_trivia(&source[2..]).starts_with('[') {
         let shebang_end = source.find('\n').unwrap_or(source.len());
         source = &source[shebang_end..];
     }
@@ -141,6 +141,45 @@ fn generate_from_string(source: &str, opt: &Opt) -> Result<GeneratedCode> {
     generate(syntax, opt)
 }
 
+/// Skips whitespace and non-documentation comments. Like in rustc, `#!` is the
+/// start of an inner attribute, not a shebang, if the token after these is `[`.
+fn skip_trivia(mut source: &str) -> &str {
+    loop {
+        source = source.trim_start();
+        let is_line_comment = source.starts_with("//")
+            && (!source.starts_with("///") || source.starts_with("////"))
+            && !source.starts_with("//!");
+        let is_block_comment = source.starts_with("/*")
+            && (!source.starts_with("/**")
+                || source.starts_with("/***")
+                || source.starts_with("/**/"))
+            && !source.starts_with("/*!");
+        if is_line_comment {
+            source = &source[source.find('\n').unwrap_or(source.len())..];
+        } else if is_block_comment {
+            let mut depth = 0;
+            loop {
+                if source.starts_with("/*") {
+                    depth += 1;
+                    source = &source[2..];
+                } else if source.starts_with("*/") {
+                    depth -= 1;
+                    source = &source[2..];
+                } else if let Some(ch) = source.chars().next() {
+                    source = &source[ch.len_utf8()..];
+                } else {
+                    return source;
+                }
+                if depth == 0 {
+                    break;
+                }
+            }
+        } else {
+            return source;
+        }
+    }
+}
+
 pub(super) fn generate(syntax: File, opt: &Opt) -> Result<GeneratedCode> {
     if syntax.modules.is_empty() {
         return Err(Error::NoBridgeMod);
-- 
2.43.0


From 500db236129feee4a6956cd873d3e61ff2fac184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:39 +0000
Subject: [PATCH 51/52] fix: locate diagnostics after a byte order mark

---
 gen/src/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gen/src/mod.rs b/gen/src/mod.rs
index e3e44c5..90fcf05 100644
--- a/gen/src/mod.rs
+++ b/gen/src/mod.rs
@@ -112,9 +112,12 @@ pub(super) fn generate_from_path(path: &Path, opt: &Opt) -> GeneratedCode {
         Ok(source) => source,
         Err(err) => format_err(path, "", err),
     };
-    match generate_from_string(&source, opt) {
+    // As in rustc, a byte order mark is not part of the source: a shebang line may
+    // follow it, and it does not count in the location of a diagnostic.
+    let source = source.strip_prefix('\u{feff}').unwrap_or(&source);
+    match generate_from_string(source, opt) {
         Ok(out) => out,
-        Err(err) => format_err(path, &source, err),
+        Err(err) => format_err(path, source, err),
     }
 }
 
@@ -131,8 +134,7 @@ fn read_to_string(path: &Path) -> Result<String> {
 }
 
 fn generate_from_string(source: &str, opt: &Opt) -> Result<GeneratedCode> {
-    // As in rustc, a shebang line may be preceded by a byte order mark.
-    let mut source = source.strip_prefix('\u{feff}').unwrap_or(source);
+    let mut source = source;
     if source.starts_with("#!") && !skip_trivia(&source[2..]).starts_with('[') {
         let shebang_end = source.find('\n').unwrap_or(source.len());
         source = &source[shebang_end..];
-- 
2.43.0


From 0b05cff57bc6bb5e113fe6c3b45ca7a8b1df9bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:02 +0000
Subject: [PATCH 52/52] fix: generated Rust code must not resolve concat! and
 module_path! in the user's scope

---
 macro/src/expand.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/macro/src/expand.rs b/macro/src/expand.rs
index 3ac7971..120201c 100644
--- a/macro/src/expand.rs
+++ b/macro/src/expand.rs
@@ -217,7 +217,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[doc(hidden)]
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || *lhs == *rhs)
                     }
                 });
@@ -230,7 +230,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                         #[doc(hidden)]
                         #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                         extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                            let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                             ::cxx::private::prevent_unwind(__fn, || *lhs != *rhs)
                         }
                     });
@@ -244,7 +244,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[doc(hidden)]
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || *lhs < *rhs)
                     }
                 });
@@ -256,7 +256,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[doc(hidden)]
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || *lhs <= *rhs)
                     }
                 });
@@ -269,7 +269,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                         #[doc(hidden)]
                         #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                         extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                            let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                             ::cxx::private::prevent_unwind(__fn, || *lhs > *rhs)
                         }
                     });
@@ -281,7 +281,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                         #[doc(hidden)]
                         #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                         extern "C" fn #local_name #generics(lhs: &#ident #generics, rhs: &#ident #generics) -> bool {
-                            let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                             ::cxx::private::prevent_unwind(__fn, || *lhs >= *rhs)
                         }
                     });
@@ -296,7 +296,7 @@ fn expand_struct_operators(strct: &Struct) -> TokenStream {
                     #[#UnsafeAttr(#ExportNameAttr = #link_name)]
                     #[allow(clippy::cast_possible_truncation)]
                     extern "C" fn #local_name #generics(this: &#ident #generics) -> usize {
-                        let __fn = concat!("<", module_path!(), #prevent_unwind_label);
+                        let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_label);
                         ::cxx::private::prevent_unwind(__fn, || ::cxx::private::hash(this))
                     }
                 });
@@ -1440,7 +1440,7 @@ fn expand_rust_box(key: NamedImplKey, types: &Types, explicit_impl: Option<&Impl
         #[doc(hidden)]
         #[#UnsafeAttr(#ExportNameAttr = #link_drop)]
         unsafe extern "C" fn #local_drop #impl_generics(this: *mut ::cxx::alloc::boxed::Box<#ident #ty_generics>) {
-            let __fn = concat!("<", module_path!(), #prevent_unwind_drop_label);
+            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_drop_label);
             ::cxx::private::prevent_unwind(__fn, || unsafe { ::cxx::core::ptr::drop_in_place(this) });
         }
     }
@@ -1491,7 +1491,7 @@ fn expand_rust_vec(key: NamedImplKey, types: &Types, explicit_impl: Option<&Impl
         #[doc(hidden)]
         #[#UnsafeAttr(#ExportNameAttr = #link_drop)]
         unsafe extern "C" fn #local_drop #impl_generics(this: *mut ::cxx::private::RustVec<#elem #ty_generics>) {
-            let __fn = concat!("<", module_path!(), #prevent_unwind_drop_label);
+            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_drop_label);
             ::cxx::private::prevent_unwind(
                 __fn,
                 || unsafe { ::cxx::core::ptr::drop_in_place(this) },
@@ -1534,7 +1534,7 @@ fn expand_rust_vec(key: NamedImplKey, types: &Types, explicit_impl: Option<&Impl
         #[doc(hidden)]
         #[#UnsafeAttr(#ExportNameAttr = #link_truncate)]
         unsafe extern "C" fn #local_truncate #impl_generics(this: *mut ::cxx::private::RustVec<#elem #ty_generics>, len: usize) {
-            let __fn = concat!("<", module_path!(), #prevent_unwind_drop_label);
+            let __fn = ::cxx::private::concat!("<", ::cxx::private::module_path!(), #prevent_unwind_drop_label);
             ::cxx::private::prevent_unwind(
                 __fn,
                 || unsafe { (*this).truncate(len) },
-- 
2.43.0

