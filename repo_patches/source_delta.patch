From c44b8cff75f2e600fdf10d4df910b8f0a65aabae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 01/16] fix: Do not implement a shared dependency of
 enum_derive twice

---
 src/enum_derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..21c0712 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,8 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                // A dependency can be shared by more than one of the specified traits.
+                if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From 44adb4d3b4c5a56d853defe9ac81bfbaaa3e3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 02/16] fix: Do not wrap `return` and `?` of nested async
 blocks

---
 src/auto_enum/visitor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..42f4666 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -13,7 +13,7 @@ use crate::utils::{Attrs, Node, replace_expr};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
-    /// in closures
+    /// in closures or async blocks
     closure: bool,
     /// in try blocks
     try_block: bool,
@@ -22,10 +22,11 @@ struct Scope {
 }
 
 impl Scope {
-    // check this scope is in closures or try blocks.
+    // check this scope is in closures, async blocks, or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            // `return` and `?` in async blocks exit the block as well, not the function.
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From 9ddae7066d4b60c8c0a3abc4ad5de9bb08fdd277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 03/16] fix: Detect custom markers duplicated in nested child
 scopes

---
 src/auto_enum/context.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..32d3e0d 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use std::{
-    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, mem, thread,
+    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, thread,
 };
 
 use proc_macro2::TokenStream;
@@ -128,20 +128,23 @@ impl Context {
     /// Make a new `Context` as a child based on a parent context `self`.
     pub(super) fn make_child(&mut self, span: TokenStream, args: TokenStream) -> Result<Self> {
         debug_assert!(self.has_child);
-        Self::new(
+        let child = Self::new(
             span,
             args,
             false,
-            mem::take(&mut self.markers),
+            self.markers.clone(),
             self.error.borrow_mut().as_mut().unwrap().take(),
-        )
+        )?;
+        // The marker of the child is also in use in the descendants of the child that are made
+        // before `join_child`.
+        self.markers.push(child.current_marker.clone());
+        Ok(child)
     }
 
     /// Merge a child `Context` into a parent context `self`.
-    pub(super) fn join_child(&mut self, mut child: Self) {
-        debug_assert!(self.markers.is_empty());
-        child.markers.pop();
-        mem::swap(&mut self.markers, &mut child.markers);
+    pub(super) fn join_child(&mut self, child: Self) {
+        let marker = self.markers.pop();
+        debug_assert_eq!(marker.as_ref(), Some(&child.current_marker));
 
         if let Some(message) = child.error.borrow_mut().take().unwrap() {
             self.error(message);
-- 
2.43.0


From 4260427f023828495f50b65bb1f01361189906eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 04/16] fix: Wrap `break` in the head of `for` loop inside
 `loop`

---
 src/auto_enum/expr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..02b9dac 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -172,8 +172,18 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
             match node {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
+                // The head of a `for` loop is evaluated outside of the loop.
+                Expr::ForLoop(expr) => {
+                    self.visit_expr_mut(&mut expr.expr);
+                    if self.label.is_some() {
+                        self.nested = true;
+                        self.visit_block_mut(&mut expr.body);
+                    }
+                    self.nested = tmp;
+                    return;
+                }
                 // Other loop bounds
-                Expr::Loop(_) | Expr::ForLoop(_) | Expr::While(_) => {
+                Expr::Loop(_) | Expr::While(_) => {
                     if self.label.is_none() {
                         return;
                     }
-- 
2.43.0


From dadd5c5d1a8785b866c4f52c67ea4d35f0b8217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 05/16] fix: Do not wrap `break` of inner loops and blocks that
 shadow the label

---
 src/auto_enum/expr.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 02b9dac..aef8419 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -2,8 +2,8 @@
 
 use syn::{
     Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label, Lifetime,
+    LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -160,6 +160,12 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 _ => false,
             }
         }
+
+        /// Returns `true` if `break 'label` inside the loop or block labeled as `other`
+        /// no longer refers to this loop.
+        fn is_shadowed_by(&self, other: Option<&Label>) -> bool {
+            self.label.is_some() && self.compare_labels(other.map(|label| &label.name))
+        }
     }
 
     impl VisitMut for LoopVisitor<'_> {
@@ -175,7 +181,7 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // The head of a `for` loop is evaluated outside of the loop.
                 Expr::ForLoop(expr) => {
                     self.visit_expr_mut(&mut expr.expr);
-                    if self.label.is_some() {
+                    if self.label.is_some() && !self.is_shadowed_by(expr.label.as_ref()) {
                         self.nested = true;
                         self.visit_block_mut(&mut expr.body);
                     }
@@ -183,12 +189,14 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                     return;
                 }
                 // Other loop bounds
-                Expr::Loop(_) | Expr::While(_) => {
-                    if self.label.is_none() {
+                Expr::Loop(ExprLoop { label, .. }) | Expr::While(ExprWhile { label, .. }) => {
+                    if self.label.is_none() || self.is_shadowed_by(label.as_ref()) {
                         return;
                     }
                     self.nested = true;
                 }
+                // Labeled block that shadows the label of this loop
+                Expr::Block(ExprBlock { label, .. }) if self.is_shadowed_by(label.as_ref()) => return,
                 // Desugar `break <expr>` into `break Enum::VariantN(<expr>)`.
                 Expr::Break(ExprBreak { label, expr, .. }) => {
                     if !self.nested && label.is_none() || self.compare_labels(label.as_ref()) {
-- 
2.43.0


From d91f0b868f03743f18579eb6f0d896e8e81fdda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 06/16] fix: Do not count `?` in try blocks, which are not
 wrapped

---
 src/auto_enum/visitor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 42f4666..c1215ff 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -450,8 +450,8 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
             if !self.scope.closure && !node.any_empty_attr(NEVER) {
                 match node {
                     Expr::Try(ExprTry { expr, .. }) => {
-                        // Skip if `<expr>` is a marker macro.
-                        if !self.cx.is_marker_expr(expr) {
+                        // Skip if in try blocks or `<expr>` is a marker macro.
+                        if !self.scope.try_block && !self.cx.is_marker_expr(expr) {
                             self.count.try_ += 1;
                         }
                     }
-- 
2.43.0


From 4e84df3461c2086ee90b7d36be8919b3eaf239d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 07/16] fix: Remove `impl Trait` from let bindings that also
 list the trait explicitly

---
 src/auto_enum/type_analysis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..0aa13fc 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -24,11 +24,11 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty = path(ty.path.segments.iter().map(|ty| ty.ident.clone().into()));
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
-                    if TRAITS.contains(&&*ty_trimmed)
-                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
-                    {
+                    if TRAITS.contains(&&*ty_trimmed) {
                         self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        if !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str) {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From a0a620e25a9c2dc1e40efc69a8988eb001fa2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 08/16] fix: Do not collect the same trait twice in
 type_analysis

---
 src/auto_enum/type_analysis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 0aa13fc..c538309 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -26,7 +26,12 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty_trimmed = ty_str.replace(' ', "");
                     if TRAITS.contains(&&*ty_trimmed) {
                         self.has_impl_trait = true;
-                        if !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str) {
+                        if !self
+                            .args
+                            .iter()
+                            .chain(self.traits.iter())
+                            .any(|x| x.to_token_stream().to_string() == ty_str)
+                        {
                             self.traits.push(ty);
                         }
                     }
-- 
2.43.0


From 6254a313ac0553f0d73eb83494333ff847713d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 09/16] fix: Support `error::Error` that type_analysis collects

---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 21c0712..ab505a1 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
-- 
2.43.0


From 9cae3fb86177c7e783ecb5516f03c8042b9fed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 10/16] fix: do not capture a generic parameter named R when
 deriving Coroutine

---
 src/derive/core/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index f3ca46e..4288603 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -107,7 +107,7 @@ pub(crate) mod coroutine {
         let pin = quote!(::core::pin::Pin);
         let trait_ = parse_quote!(::core::ops::Coroutine);
         let mut impl_ = EnumImpl::from_trait(data, &trait_, None, parse_quote! {
-            trait Coroutine<R> {
+            trait Coroutine<__R> {
                 type Yield;
                 type Return;
             }
@@ -116,14 +116,14 @@ pub(crate) mod coroutine {
 
         let resume = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
             quote! {
-                #ident::#v(x) => <#ty as #trait_<R>>::resume(#pin::new_unchecked(x), arg),
+                #ident::#v(x) => <#ty as #trait_<__R>>::resume(#pin::new_unchecked(x), arg),
             }
         });
         impl_.items.push(parse_quote! {
             #[inline]
             fn resume(
                 self: #pin<&mut Self>,
-                arg: R,
+                arg: __R,
             ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
-- 
2.43.0


From 347170d04045311306585db5ff78f7fe6b0e2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:22 +0000
Subject: [PATCH 11/16] fix: do not repeat the defaults of generic parameters
 in impl blocks

---
 src/enum_derive.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index ab505a1..5906d6a 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,7 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -262,8 +262,27 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
     get_alias(s).map_or(false, |x| v.iter().any(|(s, _)| *s == x))
 }
 
+fn without_defaults(mut item: ItemEnum) -> ItemEnum {
+    for param in &mut item.generics.params {
+        match param {
+            GenericParam::Type(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            GenericParam::Const(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            GenericParam::Lifetime(_) => {}
+        }
+    }
+    item
+}
+
 fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
-    let data = syn::parse2::<Data>(input)?;
+    let mut item = syn::parse2::<ItemEnum>(input)?;
+    // Defaults of generic parameters are not allowed in impl blocks.
+    let data = syn::parse2::<Data>(without_defaults(item.clone()).into_token_stream())?;
     let args = syn::parse2::<Args>(args)?.inner;
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
@@ -295,7 +314,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         }
     }
 
-    let mut item = if cx.needs_pin_projection.get() {
+    if cx.needs_pin_projection.get() {
         // If a user creates their own Unpin or Drop implementation, trait implementations with
         // `Pin<&mut self>` receiver can cause unsoundness.
         //
@@ -320,7 +339,6 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
             },
         ));
 
-        let item: ItemEnum = data.into();
         let name = &item.ident;
         let (impl_generics, ty_generics, where_clause) = item.generics.split_for_impl();
         // Ensure that enum does not implement `Drop`.
@@ -335,10 +353,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
                 impl #impl_generics MustNotImplDrop for #name #ty_generics #where_clause {}
             };
         });
-        item
-    } else {
-        data.into()
-    };
+    }
 
     if !derive.is_empty() {
         item.attrs.push(parse_quote!(#[derive(#(#derive),*)]));
-- 
2.43.0


From c0321a1f639da84e7aa8ce4ec1aa3a141dae6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:30 +0000
Subject: [PATCH 12/16] fix: handle macro invocations in statement position
 (markers with braces, attributes, annotated macros)

---
 src/auto_enum/mod.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index fcae069..6b7e930 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -6,13 +6,16 @@ mod expr;
 mod type_analysis;
 mod visitor;
 
+use std::mem;
+
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 #[cfg(feature = "type_analysis")]
 use syn::Pat;
 use syn::{
-    AngleBracketedGenericArguments, Error, Expr, ExprClosure, GenericArgument, Item, ItemEnum,
-    ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, Type, TypePath,
+    AngleBracketedGenericArguments, Error, Expr, ExprClosure, ExprMacro, GenericArgument, Item,
+    ItemEnum, ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, StmtMacro, Type, TypePath,
+    visit_mut::{self, VisitMut},
 };
 
 use self::{
@@ -36,6 +39,7 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
 
     match syn::parse2::<Stmt>(input.clone()) {
         Ok(mut stmt) => {
+            MacroStmtToExpr.visit_stmt_mut(&mut stmt);
             expand_parent_stmt(&mut cx, &mut stmt);
             cx.check().map(|()| stmt.into_token_stream())
         }
@@ -49,6 +53,7 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
                 cx.check().map(|()| unreachable!())
             }
             Ok(mut expr) => {
+                MacroStmtToExpr.visit_expr_mut(&mut expr);
                 expand_parent_expr(&mut cx, &mut expr, false);
                 cx.check().map(|()| expr.into_token_stream())
             }
@@ -57,6 +62,23 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
     .unwrap_or_else(Error::into_compile_error)
 }
 
+/// Replaces macro invocations in statement position with the equivalent expression statements so
+/// that they are handled in the same way as other expressions regardless of the delimiter used.
+struct MacroStmtToExpr;
+
+impl VisitMut for MacroStmtToExpr {
+    fn visit_stmt_mut(&mut self, node: &mut Stmt) {
+        visit_mut::visit_stmt_mut(self, node);
+
+        if let Stmt::Macro(StmtMacro { attrs, mac, semi_token }) = node {
+            *node = Stmt::Expr(
+                Expr::Macro(ExprMacro { attrs: mem::take(attrs), mac: mac.clone() }),
+                *semi_token,
+            );
+        }
+    }
+}
+
 fn expand_expr(cx: &mut Context, expr: &mut Expr) {
     let expr = match expr {
         Expr::Closure(ExprClosure { body, .. }) if cx.visit_last() => {
@@ -103,7 +125,7 @@ fn expand_parent_stmt(cx: &mut Context, stmt: &mut Stmt) {
         Stmt::Item(item) => {
             cx.error(format_err!(item, "may only be used on expression, statement, or function"));
         }
-        Stmt::Macro(_) => {}
+        Stmt::Macro(_) => unreachable!(),
     }
 }
 
-- 
2.43.0


From a43ec2463457fdbeb585c5ab4dd3be840e8ec542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:34 +0000
Subject: [PATCH 13/16] fix: look through invisible delimiters of expressions
 and types passed by macro_rules

---
 src/auto_enum/context.rs |  2 ++
 src/auto_enum/expr.rs    | 12 +++++++-----
 src/auto_enum/mod.rs     | 32 +++++++++++++++++++++++---------
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index 32d3e0d..ab1ec04 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -192,6 +192,8 @@ impl Context {
     pub(super) fn is_marker_expr(&self, expr: &Expr) -> bool {
         match expr {
             Expr::Macro(expr) => self.is_marker_macro(&expr.mac),
+            // `$expr` passed by `macro_rules!`
+            Expr::Group(expr) => self.is_marker_expr(&expr.expr),
             _ => false,
         }
     }
diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index aef8419..ff64e97 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label, Lifetime,
-    LocalInit, Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprGroup, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -31,7 +31,8 @@ pub(super) fn child_expr(cx: &mut Context, expr: &mut Expr) {
 
         // Search recursively
         Expr::MethodCall(ExprMethodCall { receiver: expr, .. })
-        | Expr::Paren(ExprParen { expr, .. }) => child_expr(cx, expr),
+        | Expr::Paren(ExprParen { expr, .. })
+        | Expr::Group(ExprGroup { expr, .. }) => child_expr(cx, expr),
 
         _ => {}
     }
@@ -71,7 +72,8 @@ pub(super) fn is_unreachable(cx: &Context, expr: &Expr) -> bool {
 
         // Search recursively
         Expr::MethodCall(ExprMethodCall { receiver: expr, .. })
-        | Expr::Paren(ExprParen { expr, .. }) => is_unreachable(cx, expr),
+        | Expr::Paren(ExprParen { expr, .. })
+        | Expr::Group(ExprGroup { expr, .. }) => is_unreachable(cx, expr),
 
         _ => false,
     }
diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 6b7e930..06cf498 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -13,8 +13,9 @@ use quote::ToTokens as _;
 #[cfg(feature = "type_analysis")]
 use syn::Pat;
 use syn::{
-    AngleBracketedGenericArguments, Error, Expr, ExprClosure, ExprMacro, GenericArgument, Item,
-    ItemEnum, ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, StmtMacro, Type, TypePath,
+    AngleBracketedGenericArguments, Error, Expr, ExprClosure, ExprGroup, ExprMacro,
+    GenericArgument, Item, ItemEnum, ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt,
+    StmtMacro, Type, TypeGroup, TypePath,
     visit_mut::{self, VisitMut},
 };
 
@@ -79,7 +80,20 @@ impl VisitMut for MacroStmtToExpr {
     }
 }
 
-fn expand_expr(cx: &mut Context, expr: &mut Expr) {
+/// Removes invisible delimiters around types passed by `macro_rules!`.
+fn ungroup(mut ty: &Type) -> &Type {
+    while let Type::Group(TypeGroup { elem, .. }) = ty {
+        ty = elem;
+    }
+    ty
+}
+
+fn expand_expr(cx: &mut Context, mut expr: &mut Expr) {
+    // Look through invisible delimiters around expressions passed by `macro_rules!`.
+    while let Expr::Group(ExprGroup { expr: inner, .. }) = expr {
+        expr = inner;
+    }
+
     let expr = match expr {
         Expr::Closure(ExprClosure { body, .. }) if cx.visit_last() => {
             let count = visitor::visit_fn(cx, &mut **body);
@@ -177,7 +191,7 @@ fn expand_parent_local(cx: &mut Context, local: &mut Local) {
 fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
     let ItemFn { sig, block, .. } = item;
     if let ReturnType::Type(_, ty) = &mut sig.output {
-        match &**ty {
+        match ungroup(ty) {
             // `return`
             Type::ImplTrait(_) if cx.visit_last_mode != VisitLastMode::Never => {
                 let count = visitor::visit_fn(cx, &mut **block);
@@ -198,11 +212,11 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
                     }) if args.len() == 2
                         && path_eq(path, &["std", "core"], &["result", "Result"]) =>
                     {
-                        if let (
-                            GenericArgument::Type(_),
-                            GenericArgument::Type(Type::ImplTrait(_)),
-                        ) = (&args[0], &args[1])
-                        {
+                        if matches!(
+                            (&args[0], &args[1]),
+                            (GenericArgument::Type(_), GenericArgument::Type(ty))
+                                if matches!(ungroup(ty), Type::ImplTrait(_))
+                        ) {
                             let count = visitor::visit_fn(cx, &mut **block);
                             if count.try_ >= 2 {
                                 cx.visit_mode = VisitMode::Try;
-- 
2.43.0


From 0605282efeb1c1cfb678a6c3a48d5a79659cad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:12 +0000
Subject: [PATCH 14/16] fix: do not look up Sized and Send at the derive site

---
 src/derive/core/convert.rs   | 4 ++--
 src/derive/core/ops.rs       | 2 +-
 src/derive/external/rayon.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/derive/core/convert.rs b/src/derive/core/convert.rs
index e65d169..76acd3d 100644
--- a/src/derive/core/convert.rs
+++ b/src/derive/core/convert.rs
@@ -7,7 +7,7 @@ pub(crate) mod as_ref {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsRef), None, parse_quote! {
-            trait AsRef<__T: ?Sized> {
+            trait AsRef<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_ref(&self) -> &__T;
             }
@@ -22,7 +22,7 @@ pub(crate) mod as_mut {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsMut), None, parse_quote! {
-            trait AsMut<__T: ?Sized> {
+            trait AsMut<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_mut(&mut self) -> &mut __T;
             }
diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index 4288603..26bc8eb 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -84,7 +84,7 @@ pub(crate) mod range_bounds {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
-            trait RangeBounds<__T: ?Sized> {
+            trait RangeBounds<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                 #[inline]
diff --git a/src/derive/external/rayon.rs b/src/derive/external/rayon.rs
index 98fcbe6..793d36d 100644
--- a/src/derive/external/rayon.rs
+++ b/src/derive/external/rayon.rs
@@ -55,7 +55,7 @@ pub(crate) mod par_extend {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::rayon::iter::ParallelExtend), None, parse_quote! {
-            trait ParallelExtend<__T: Send> {
+            trait ParallelExtend<__T: ::core::marker::Send> {
                 #[inline]
                 fn par_extend<__I>(&mut self, par_iter: __I)
                 where
-- 
2.43.0


From 0fad664b3d59a0a69c3e25a1c48a00cee4b63a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:19 +0000
Subject: [PATCH 15/16] fix: recognise Err(expr)? passed by macro_rules as
 diverging

---
 src/auto_enum/expr.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index ff64e97..a0d5c7f 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -57,18 +57,7 @@ pub(super) fn is_unreachable(cx: &Context, expr: &Expr) -> bool {
         }
 
         // `Err(expr)?` or `None?`.
-        Expr::Try(ExprTry { expr, .. }) => match &**expr {
-            Expr::Path(ExprPath { path, qself: None, .. }) => {
-                path_eq(path, &["std", "core"], &["option", "Option", "None"])
-            }
-            Expr::Call(ExprCall { args, func, .. }) if args.len() == 1 => match &**func {
-                Expr::Path(ExprPath { path, qself: None, .. }) => {
-                    path_eq(path, &["std", "core"], &["result", "Result", "Err"])
-                }
-                _ => false,
-            },
-            _ => false,
-        },
+        Expr::Try(ExprTry { expr, .. }) => is_none_or_err(expr),
 
         // Search recursively
         Expr::MethodCall(ExprMethodCall { receiver: expr, .. })
@@ -79,6 +68,23 @@ pub(super) fn is_unreachable(cx: &Context, expr: &Expr) -> bool {
     }
 }
 
+fn is_none_or_err(expr: &Expr) -> bool {
+    match expr {
+        Expr::Path(ExprPath { path, qself: None, .. }) => {
+            path_eq(path, &["std", "core"], &["option", "Option", "None"])
+        }
+        Expr::Call(ExprCall { args, func, .. }) if args.len() == 1 => match &**func {
+            Expr::Path(ExprPath { path, qself: None, .. }) => {
+                path_eq(path, &["std", "core"], &["result", "Result", "Err"])
+            }
+            _ => false,
+        },
+        // `$expr` passed by `macro_rules!`
+        Expr::Group(ExprGroup { expr, .. }) => is_none_or_err(expr),
+        _ => false,
+    }
+}
+
 fn is_unreachable_macro(cx: &Context, mac: &Macro) -> bool {
     const UNREACHABLE_MACROS: &[&str] = &["unreachable", "panic"];
 
-- 
2.43.0


From 2d52ea7d9a2f2e834423fcd7b0884d9709f9ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:50 +0000
Subject: [PATCH 16/16] fix: apply #[never] on an expression passed by
 macro_rules to that expression

---
 src/auto_enum/mod.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 06cf498..f2cbadf 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -23,7 +23,7 @@ use self::{
     context::{Context, DEFAULT_MARKER, VisitLastMode, VisitMode},
     expr::child_expr,
 };
-use crate::utils::{block, expr_block, path_eq, replace_expr};
+use crate::utils::{Attrs as _, VecExt as _, block, expr_block, path_eq, replace_expr};
 
 /// The attribute name.
 const NAME: &str = "auto_enum";
@@ -40,7 +40,7 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
 
     match syn::parse2::<Stmt>(input.clone()) {
         Ok(mut stmt) => {
-            MacroStmtToExpr.visit_stmt_mut(&mut stmt);
+            Normalize.visit_stmt_mut(&mut stmt);
             expand_parent_stmt(&mut cx, &mut stmt);
             cx.check().map(|()| stmt.into_token_stream())
         }
@@ -54,7 +54,7 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
                 cx.check().map(|()| unreachable!())
             }
             Ok(mut expr) => {
-                MacroStmtToExpr.visit_expr_mut(&mut expr);
+                Normalize.visit_expr_mut(&mut expr);
                 expand_parent_expr(&mut cx, &mut expr, false);
                 cx.check().map(|()| expr.into_token_stream())
             }
@@ -64,10 +64,21 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
 }
 
 /// Replaces macro invocations in statement position with the equivalent expression statements so
-/// that they are handled in the same way as other expressions regardless of the delimiter used.
-struct MacroStmtToExpr;
+/// that they are handled in the same way as other expressions regardless of the delimiter used,
+/// and moves `#[never]` on `$expr` passed by `macro_rules!` to the expression passed.
+struct Normalize;
+
+impl VisitMut for Normalize {
+    fn visit_expr_mut(&mut self, node: &mut Expr) {
+        if let Expr::Group(ExprGroup { attrs, expr, .. }) = node {
+            if let Some(inner) = expr.attrs_mut() {
+                inner.extend(attrs.find_remove(|attr| attr.path().is_ident(NEVER)));
+            }
+        }
+
+        visit_mut::visit_expr_mut(self, node);
+    }
 
-impl VisitMut for MacroStmtToExpr {
     fn visit_stmt_mut(&mut self, node: &mut Stmt) {
         visit_mut::visit_stmt_mut(self, node);
 
-- 
2.43.0

