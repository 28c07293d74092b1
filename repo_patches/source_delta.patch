From c6c4d8ee6125107c824ca7d36ad4ba3a5be08a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 1/7] fix: select the AVX2 escape only when AVX2 is implemented
 and enabled by the OS

detect() tested for AVX, so on a CPU with AVX but not AVX2, or with the YMM
state disabled by the OS, escaping executed illegal instructions.
---
 laby_common/src/internal/escape.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 4156e49..9a032b5 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -95,6 +95,10 @@ pub fn escape(feed: &str, buf: &mut Buffer) {
 
 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
 fn escape_impl(feed: &str, buf: &mut Buffer) {
+    #[cfg(target_arch = "x86")]
+    use core::arch::x86::_xgetbv;
+    #[cfg(target_arch = "x86_64")]
+    use core::arch::x86_64::_xgetbv;
     use core::sync::atomic::{AtomicPtr, Ordering};
 
     type FnRaw = *mut ();
@@ -102,9 +106,17 @@ fn escape_impl(feed: &str, buf: &mut Buffer) {
 
     fn detect(feed: &str, buf: &mut Buffer) {
         debug_assert!(feed.len() >= 16);
-        let features = raw_cpuid::CpuId::new().get_feature_info();
-        let fun = if let Some(features) = features {
-            if features.has_avx() {
+        let cpuid = raw_cpuid::CpuId::new();
+        let fun = if let Some(features) = cpuid.get_feature_info() {
+            // AVX2 must be implemented by the CPU, and the XMM and YMM state enabled by the OS
+            let has_avx2 = features.has_avx()
+                && features.has_oxsave()
+                && unsafe { _xgetbv(0) } & 6 == 6
+                && cpuid
+                    .get_extended_feature_info()
+                    .map_or(false, |features| features.has_avx2());
+
+            if has_avx2 {
                 avx2::escape
             } else if features.has_sse2() {
                 sse2::escape
-- 
2.43.0


From 2074edd748e9dd1f30f12b275a560ed18c3c414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 2/7] fix: Buffer::reserve panics on requests beyond isize::MAX
 in release builds

Without debug assertions capacity + size wrapped around and reserve returned
without having provided any room.
---
 laby_common/src/internal/buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laby_common/src/internal/buffer.rs b/laby_common/src/internal/buffer.rs
index e16b2f7..6e4e556 100644
--- a/laby_common/src/internal/buffer.rs
+++ b/laby_common/src/internal/buffer.rs
@@ -159,6 +159,7 @@ impl Buffer {
             return;
         }
 
+        assert!(size <= core::isize::MAX as usize, "capacity is too large");
         self.reserve_internal(size);
     }
 
-- 
2.43.0


From f380cf0937f4dc2a6ed8d21462efd57d102b3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 3/7] fix: iter! with a delimiter stops at the iterator's first
 end

An iterator that returned None first was asked again, so items after its end
were rendered with a leading delimiter.
---
 laby/src/helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index 0e3e374..a64bb65 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -228,11 +228,11 @@ where
 
         if let Some(item) = iter.next() {
             item.render(buf);
-        }
 
-        for item in iter {
-            buf.push_str(del);
-            item.render(buf);
+            for item in iter {
+                buf.push_str(del);
+                item.render(buf);
+            }
         }
     }
 }
-- 
2.43.0


From 3c6a189264235290fd079426cc5a7f9df12f3afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 4/7] fix: render float literals as the type their suffix names

1f32 and 1f64 parse as integer literals and rendered as 1 instead of 1.0, and
f32 literals were rendered with f64 precision (16777217.0f32).
---
 laby_macros/src/build.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 1a00970..3c813fb 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -164,8 +164,15 @@ fn try_render_literal(expr: &ExprLit) -> Option<String> {
             Lit::Byte(ref v) => render!(v.value()),
             Lit::Char(ref v) => render!(v.value()),
             Lit::Bool(ref v) => render!(v.value()),
-            Lit::Int(ref v) => render!(v.base10_parse::<u128>().ok()?),
-            Lit::Float(ref v) => render!(v.base10_parse::<f64>().ok()?),
+            Lit::Int(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                "f64" => render!(v.base10_parse::<f64>().ok()?),
+                _ => render!(v.base10_parse::<u128>().ok()?),
+            },
+            Lit::Float(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                _ => render!(v.base10_parse::<f64>().ok()?),
+            },
 
             _ => return None,
         })
-- 
2.43.0


From fd5783a1a210d15131b0780e2d437d16f8f2e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 5/7] fix: raw identifier attribute names render without r#

div!(r#type = ...) produced <div r#type=...>, which is not the attribute type.
---
 laby_macros/src/build.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 3c813fb..2e639d0 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -14,8 +14,8 @@ use laby_common::{internal::Buffer, Render};
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::quote;
 use syn::{
-    parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
-    ExprLit, Lit, Stmt,
+    ext::IdentExt, parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr,
+    ExprAssign, ExprLit, Lit, Stmt,
 };
 
 pub fn build_node(element: Element, stream: TokenStream) -> syn::Result<Node> {
@@ -189,7 +189,7 @@ fn set_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
     if let Some(value) = try_unwrap_literal(&left)
         .and_then(try_render_literal)
-        .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+        .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
     {
         node.render.push_str(value);
     } else {
@@ -225,7 +225,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
             if let Some(value) = try_unwrap_literal(&left)
                 .and_then(try_render_literal)
-                .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+                .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
             {
                 node.render.push_str(value);
             } else {
@@ -239,7 +239,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
         if let Some(value) = try_unwrap_literal(&left)
             .and_then(try_render_literal)
-            .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+            .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
         {
             let value = Literal::string(&format!(" {}", value));
             node.render.push_expr(quote!(
-- 
2.43.0


From 139ebe3fe01141b3fee5c9e5fdf64a210588007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 6/7] fix: let a component with a where clause be called
 through its macro

---
 laby_macros/src/component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 13dc4ec..c99bd90 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -26,7 +26,7 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
-    let func_sig = func.sig.clone();
+    let mut func_sig = func.sig.clone();
     let func_name = func_sig.ident.clone();
 
     for arg in func.sig.inputs.iter_mut() {
@@ -36,6 +36,9 @@ pub fn generate_component_macro(
         pop_rest_attr(attrs)?;
     }
 
+    // a where clause would extend over the arguments that follow the encoded signature
+    func_sig.generics.where_clause = None;
+
     if cfg!(feature = "decl_macro") {
         let vis = func.vis.clone();
 
-- 
2.43.0


From d33afabef853dc23eb462529b4a5d52318a4a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 7/7] fix: frag_match! works where Some or None name something
 else

---
 laby_macros/src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index c5d9023..0754244 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -26,8 +26,8 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
         let name = format_ident!("__variant_{}", decls.len() + 1);
         let ref body = arm.body;
 
-        decls.push(quote!(let mut #name = None));
-        arm.body = Box::new(parse_quote!(#name = Some(#body)));
+        decls.push(quote!(let mut #name = ::core::option::Option::None));
+        arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
         vars.push(name);
     }
 
@@ -47,8 +47,8 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
         let mut add = |block: &mut Block| {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
-            decls.push(quote!(let mut #name = None));
-            *block = parse_quote!({ #name = Some(#block) });
+            decls.push(quote!(let mut #name = ::core::option::Option::None));
+            *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
 
-- 
2.43.0

