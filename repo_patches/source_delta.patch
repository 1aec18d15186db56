From f16fd59f307c03c7c03f54c46270025efb1bf963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 01/46] fix: skipped fields must not be locked or made inner
 mutable by struct-level arguments

With lock, reader, writer or inner_mut at struct level the hidden weak
self-reference of a reference counted struct, and any 'skip' field, was
initialized with a lock or a cell around while declared without.
---
 fieldx_derive/src/ctx/field.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 9371eb3..0bc7496 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -76,7 +76,7 @@ impl FXFieldCtx {
         }
     }
 
-    helper_fn_ctx! { is: lazy, inner_mut }
+    helper_fn_ctx! { is: lazy }
 
     helper_fn_ctx! { needs: accessor_mut, setter, writer }
 
@@ -149,10 +149,22 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn needs_lock(&self) -> bool {
-        self.field
-            .needs_lock()
-            .or_else(|| self.codegen_ctx().args().needs_lock())
-            .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+        !self.is_skipped()
+            && self
+                .field
+                .needs_lock()
+                .or_else(|| self.codegen_ctx().args().needs_lock())
+                .unwrap_or_else(|| self.needs_reader() || self.needs_writer() || self.is_optional())
+    }
+
+    #[inline]
+    pub fn is_inner_mut(&self) -> bool {
+        !self.is_skipped()
+            && self
+                .field
+                .is_inner_mut()
+                .or_else(|| self.codegen_ctx().args().is_inner_mut())
+                .unwrap_or(false)
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From 634d910cecf8a0fdd9905a2b637faf5120f10b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 02/46] fix: resolve Self in field defaults of sync and async
 struct builders

A default like Self::foo() of an optional, locked or builder(off) field was
looked for in the builder struct.
---
 fieldx_derive/src/codegen/sync.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 5c5ce7e..d8508de 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -395,7 +395,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
         };
 
         Ok(if !fctx.forced_builder() && !fctx.needs_builder() {
-            let default = self.field_value_wrap(fctx, default)?;
+            let default = self.field_default_wrap(fctx)?;
             quote_spanned![span=> #field_ident: #default]
         }
         else if fctx.is_lazy() {
@@ -690,6 +690,6 @@ impl FXCodeGenContextual for FXCodeGenSync {
     }
 
     fn field_default_wrap(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
-        self.field_value_wrap(fctx, self.field_default_value(fctx))
+        self.field_value_wrap(fctx, self.field_default_value(fctx).map(|dv| self.fixup_self_type(dv)))
     }
 }
-- 
2.43.0


From b81ba8608ffd929eac5a293e95798fb7cc50cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 03/46] fix: copying, cloning and mutable accessors of locked
 async fields must be async

They used futures as if they were lock guards and didn't compile.
---
 fieldx_derive/src/codegen/sync.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index d8508de..32d002e 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -261,11 +261,14 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 }
                 else if fctx.needs_lock() {
                     let ty = self.maybe_optional_ty(fctx, ty);
+                    let implementor = self.implementor(fctx);
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
 
                     quote_spanned![span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty {
-                            let rlock = self.#ident.read() #shortcut;
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty {
+                            let rlock = self.#ident.read() #await_call #shortcut;
                             (*rlock)#cmethod
                         }
                     ]
@@ -343,13 +346,16 @@ impl FXCodeGenContextual for FXCodeGenSync {
                 };
                 if fctx.needs_lock() {
                     let lock_span = fctx.lock_span();
-                    let wrguard = self.implementor(fctx).rwlock_write_guard();
+                    let implementor = self.implementor(fctx);
+                    let async_decl = implementor.async_decl();
+                    let await_call = implementor.await_call();
+                    let wrguard = implementor.rwlock_write_guard();
                     let ty_toks = quote_spanned! [lock_span=> #wrguard<#ty_toks>];
 
                     quote_spanned! [span=>
                         #attributes_fn
-                        #vis_tok fn #accessor_name(&self) -> #ty_toks {
-                            self.#ident.write()
+                        #vis_tok #async_decl fn #accessor_name(&self) -> #ty_toks {
+                            self.#ident.write()#await_call
                         }
                     ]
                 }
-- 
2.43.0


From 62896271c98b892e49e49a507199f031410ca067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 04/46] fix: get_mut of sync and async fields ignored its
 visibility and attributes

Those of get were used instead.
---
 fieldx_derive/src/codegen/sync.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 32d002e..4fa27eb 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -314,11 +314,11 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_accessor_mut(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         Ok(if fctx.needs_accessor_mut() {
             let ident = fctx.ident_tok();
-            let vis_tok = fctx.vis_tok(FXHelperKind::Accessor);
+            let vis_tok = fctx.vis_tok(FXHelperKind::AccessorMut);
             let accessor_name = self.accessor_mut_name(fctx)?;
             let ty = fctx.ty();
-            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::Accessor, FXInlining::Always);
-            let span = self.helper_span(fctx, FXHelperKind::Accessor);
+            let attributes_fn = self.attributes_fn(fctx, FXHelperKind::AccessorMut, FXInlining::Always);
+            let span = self.helper_span(fctx, FXHelperKind::AccessorMut);
             let read_method = self.read_method_name(fctx, true, &span);
 
             if fctx.is_lazy() {
-- 
2.43.0


From 732ea7d73ec424f4ae5c992935c2e966813901e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 05/46] fix: inner_mut(off) of a field must not turn it into a
 sync one

---
 fieldx_derive/src/fields.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 8cc5a8c..26912ff 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -221,7 +221,8 @@ impl FXFieldReceiver {
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.is_plain().map(|b| !b))
+            // Only an enabled inner_mut speaks for the mode.
+            .or_else(|| self.is_plain().and_then(|b| if b { Some(false) } else { None }))
             .or_else(|| {
                 // Setting reader or writer to off doesn't mean the field becomes plain. It's better be decided at the
                 // struct level then.
-- 
2.43.0


From b358e6b5fda8d1e599ec21747661f88d2c14d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 06/46] fix: concurrency mode of a field given as mode(async),
 or as sync in an async struct

The first was treated as plain, the second as async.
---
 fieldx_derive/src/fields.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 26912ff..5c5cb37 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -208,6 +208,8 @@ impl FXFieldReceiver {
             .as_ref()
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_async()))
+            // Explicit sync overrides the struct-level async
+            .or_else(|| if self.mode_sync.is_true() { Some(false) } else { None })
     }
 
     pub fn is_plain(&self) -> Option<bool> {
@@ -218,7 +220,7 @@ impl FXFieldReceiver {
         self.mode_sync
             .as_ref()
             .map(|th| th.is_true())
-            .or_else(|| self.mode.as_ref().map(|m| m.is_sync()))
+            .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
             .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
             // Only an enabled inner_mut speaks for the mode.
-- 
2.43.0


From f910c15f6ace5c58cfc73dbe5b56e94b97c10751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 07/46] fix: struct-level builder(required) must not apply to
 fields the builder has no setter for

Such builders could never succeed.
---
 fieldx_derive/src/ctx/field.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 0bc7496..1a10bf9 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -261,11 +261,14 @@ impl FXFieldCtx {
     }
 
     pub fn is_builder_required(&self) -> bool {
-        self.builder()
-            .as_ref()
-            .and_then(|h| h.is_required())
-            .or_else(|| self.codegen_ctx().args().is_builder_required())
-            .unwrap_or(false)
+        // A field the builder has no setter for can't be required
+        (self.forced_builder() || self.needs_builder())
+            && self
+                .builder()
+                .as_ref()
+                .and_then(|h| h.is_required())
+                .or_else(|| self.codegen_ctx().args().is_builder_required())
+                .unwrap_or(false)
     }
 
     #[cfg(feature = "serde")]
-- 
2.43.0


From 899e391e8acce2c53712f26f96e7d1dc62a1b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 08/46] fix: skipped fields must not be required to be Copy by
 struct-level copy

In a reference counted struct the hidden weak self-reference was.
---
 fieldx_derive/src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index f3eada7..89e5792 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -187,7 +187,7 @@ impl FXRewriter {
     fn prepare_field(&self, fctx: Ref<FXFieldCtx>) -> darling::Result<()> {
         let ctx = self.ctx();
 
-        if fctx.needs_accessor() && fctx.is_copy() {
+        if !fctx.is_skipped() && fctx.needs_accessor() && fctx.is_copy() {
             ctx.add_for_copy_trait_check(&fctx);
         }
 
-- 
2.43.0


From 896500cf3761938e42e45ca01e62e1e8b00b9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 09/46] fix: serialize(off) of a field must not leave it out of
 the shadow struct initializer

---
 fieldx_derive/src/codegen/serde.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index a95f6b5..08c4ab0 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -403,9 +403,10 @@ impl FXRewriteSerde for super::FXRewriter {
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
                 if let Ok(fctx) = fctx {
-                    if fctx.is_serde() && fctx.needs_serialize() {
+                    if fctx.is_serde() {
                         let field_ident = fctx.ident_tok();
-                        let is_lazy = fctx.is_lazy();
+                        // The shadow has all serde fields. A field which is not serialized needs no initialization.
+                        let is_lazy = fctx.is_lazy() && fctx.needs_serialize();
 
                         ctx.exec_or_record(|| {
                             let cgen = self.field_codegen(&fctx)?;
-- 
2.43.0


From c3ae632e7669e027e43c9380b41b1e1d58f3b282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 10/46] fix: an empty optional or lazy field of a plain struct
 must stay empty over deserialization

---
 fieldx_derive/src/codegen/plain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index bc78fc2..12c9784 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -446,9 +446,9 @@ impl FXCodeGenContextual for FXCodeGenPlain {
         let shadow_var = self.ctx().shadow_var_ident();
 
         Ok(if self.is_serde_optional(fctx) {
-            let default_value = self.field_default_wrap(fctx)?;
+            let empty_value = self.field_value_wrap(fctx, FXValueRepr::None)?;
             let shadow_value = self.field_value_wrap(fctx, FXValueRepr::Versatile(quote![v]))?;
-            quote![ #shadow_var.#field_ident.map_or_else(|| #default_value, |v| #shadow_value) ]
+            quote![ #shadow_var.#field_ident.map_or_else(|| #empty_value, |v| #shadow_value) ]
         }
         else if fctx.is_inner_mut() {
             let shadow_value = self.field_value_wrap(fctx, FXValueRepr::Versatile(quote![#shadow_var.#field_ident]))?;
-- 
2.43.0


From 2c7a37d614198ce51346f37814aa34aff448562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 11/46] fix: builders and Self in defaults of generic structs
 with bounds

---
 fieldx_derive/src/codegen.rs               | 9 ++++-----
 fieldx_derive/src/codegen/codegen_trait.rs | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 89e5792..7c5e3dd 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -330,9 +330,7 @@ impl FXRewriter {
         let builder_ident = ctx.builder_ident();
         let builders = ctx.builders_combined();
         let input_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
-        let where_clause = &generics.where_clause;
-        let generic_params = ctx.struct_generic_params();
+        let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
         let attributes = ctx.args().builder_impl_attributes();
         let post_build_ident = ctx.builder_post_build_ident();
 
@@ -408,7 +406,7 @@ impl FXRewriter {
 
         quote![
             #attributes
-            impl #generics #builder_ident #generic_params
+            impl #impl_generics #builder_ident #generic_params
             #where_clause
             {
                 #fn_new
@@ -440,7 +438,8 @@ impl FXRewriter {
                 let (_, weak_type) = cgen.ref_count_types();
                 let mf = ctx.myself_field();
                 let input_ident = ctx.input_ident();
-                quote![#mf: #weak_type<#input_ident #generics>,]
+                let generic_params = ctx.struct_generic_params();
+                quote![#mf: #weak_type<#input_ident #generic_params>,]
             }
             else {
                 quote![]
diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 9194a18..634408a 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -482,13 +482,13 @@ pub trait FXCodeGenContextual {
         let span = tokens.span();
         let mut fixed_tokens = TokenStream::new();
         let struct_ident = ctx.input_ident();
-        let generics = ctx.input().generics();
+        let generic_params = ctx.struct_generic_params();
 
         for t in tokens.into_iter() {
             match t {
                 TokenTree::Ident(ref ident) => {
                     if ident.to_string() == "Self" {
-                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generics>]);
+                        fixed_tokens.extend(quote_spanned![span=> <#struct_ident #generic_params>]);
                     }
                     else {
                         fixed_tokens.extend(t.to_token_stream());
-- 
2.43.0


From a5ce1e5b2706e27d83e06201509e1ebed2aeca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 12/46] fix: serialization of generic structs with inline
 bounds or const parameters

---
 fieldx_derive/src/codegen/serde.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 08c4ab0..073c7ab 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -258,8 +258,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut serde_args: Vec<TokenStream> = vec![];
 
             let serde_helper = args.serde().as_ref().unwrap();
-            let generics = ctx.input().generics();
-            let shadow_ident = format!("{}{}", ctx.shadow_ident(), generics.to_token_stream());
+            let shadow_ident = format!("{}{}", ctx.shadow_ident(), ctx.struct_generic_params());
             let serde_span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             if serde_helper.needs_deserialize().unwrap_or(true) {
@@ -296,7 +295,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut attrs = vec![];
             let derive_attr = crate::util::derive_toks(&self.serde_derive_traits());
             let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, generic_params, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
             let user_attributes = serde_helper.attributes();
 
@@ -309,7 +308,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let default_impl = if ctx.needs_default() {
                 let shadow_defaults = ctx.shadow_defaults();
                 quote_spanned! {span=>
-                    impl #generics ::std::default::Default for #shadow_ident #generics #where_clause {
+                    impl #impl_generics ::std::default::Default for #shadow_ident #generic_params #where_clause {
                         fn default() -> Self {
                             Self {
                                 #( #shadow_defaults ),*
@@ -344,8 +343,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let struct_ident = ctx.input_ident();
             let shadow_var = ctx.shadow_var_ident();
             let mut fields = vec![];
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
             let span = args.serde_helper_span().unwrap_or_else(|| Span::call_site());
 
             for field in ctx.all_fields() {
@@ -376,8 +374,8 @@ impl FXRewriteSerde for super::FXRewriter {
             };
 
             ctx.tokens_extend(quote_spanned![span=>
-                impl #generics ::std::convert::From<#shadow_ident #generics> for #struct_ident #generics #where_clause {
-                    fn from(#shadow_var: #shadow_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#shadow_ident #generic_params> for #struct_ident #generic_params #where_clause {
+                    fn from(#shadow_var: #shadow_ident #generic_params) -> Self {
                         Self {
                             #( #fields, )*
                             #init_from_default
@@ -397,8 +395,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let mut fields = vec![];
             let mut lazy_inits = vec![];
             let me_var = ctx.me_var_ident();
-            let generics = ctx.input().generics();
-            let where_clause = &generics.where_clause;
+            let (impl_generics, generic_params, where_clause) = ctx.input().generics().split_for_impl();
 
             for field in ctx.all_fields() {
                 let fctx = ctx.field_ctx(field);
@@ -429,8 +426,8 @@ impl FXRewriteSerde for super::FXRewriter {
             }
 
             ctx.tokens_extend(quote![
-                impl #generics ::std::convert::From<#struct_ident #generics> for #shadow_ident #generics #where_clause {
-                    fn from(mut #me_var: #struct_ident #generics) -> Self {
+                impl #impl_generics ::std::convert::From<#struct_ident #generic_params> for #shadow_ident #generic_params #where_clause {
+                    fn from(mut #me_var: #struct_ident #generic_params) -> Self {
                         #( #lazy_inits )*
                         Self {
                             #( #fields, )*
@@ -512,12 +509,12 @@ impl FXRewriteSerde for super::FXRewriter {
                     quote_spanned![default_span=> #default_code]
                 };
 
-                let generics = ctx.input().generics();
+                let generic_params = ctx.struct_generic_params();
                 let shadow_ident = ctx.shadow_ident();
                 let fn_ident = ctx.unique_ident_pfx(&format!("{}_default", shadow_ident.to_string()));
                 ctx.add_method_decl(quote_spanned![default_span=>
                     #[allow(non_snake_case)]
-                    fn #fn_ident() -> #shadow_ident #generics {
+                    fn #fn_ident() -> #shadow_ident #generic_params {
                         #serde_default.into()
                     }
                 ]);
-- 
2.43.0


From 56dcea11afc2c3400551cad6a79109c0b7ce43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 13/46] fix: attributes of the attributes* arguments are
 separated by commas only

Splitting on any punctuation broke up paths and name-value attributes, and malformed lists made the macro panic.
---
 fieldx_aux/src/attributes.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/fieldx_aux/src/attributes.rs b/fieldx_aux/src/attributes.rs
index bf7298a..04fe96b 100644
--- a/fieldx_aux/src/attributes.rs
+++ b/fieldx_aux/src/attributes.rs
@@ -3,8 +3,8 @@
 use darling::FromMeta;
 use getset::Getters;
 use proc_macro2::TokenStream;
-use quote::{quote, ToTokens};
-use syn::{parse_quote_spanned, spanned::Spanned, Meta};
+use quote::{quote_spanned, ToTokens};
+use syn::{parse::Parser, spanned::Spanned, Attribute, Meta};
 
 /// Implementation of `attributes*(...)` family of arguments.
 ///
@@ -28,13 +28,13 @@ impl FromMeta for FXAttributes {
         match input {
             Meta::List(ref ml) => {
                 let ml_chunks: Vec<TokenStream> = vec![TokenStream::new()];
-                // Split the incoming tokenstream into chunks separated by Puncts (i.e. by commas)
+                // Split the incoming tokenstream into chunks separated by commas
                 let mut ml_chunks = ml.tokens.clone().into_iter().fold(ml_chunks, |mut mlc, item| {
-                    if let proc_macro2::TokenTree::Punct(_) = item {
-                        mlc.push(TokenStream::new());
-                    }
-                    else {
-                        mlc.last_mut().unwrap().extend([item]);
+                    match item {
+                        proc_macro2::TokenTree::Punct(ref punct) if punct.as_char() == ',' => {
+                            mlc.push(TokenStream::new())
+                        }
+                        _ => mlc.last_mut().unwrap().extend([item]),
                     }
                     mlc
                 });
@@ -47,15 +47,15 @@ impl FromMeta for FXAttributes {
                 }
 
                 // Transform chunks into attributes
-                let pound = quote![#];
-                Ok(Self {
-                    list: ml_chunks
-                        .iter()
-                        .map(|tt| parse_quote_spanned!(tt.span()=> #pound [ #tt ]))
-                        .collect(),
-                })
+                let mut list = vec![];
+                for tt in ml_chunks {
+                    // Report an empty chunk (i.e. a stray comma) at the argument itself.
+                    let span = if tt.is_empty() { ml.span() } else { tt.span() };
+                    list.extend(Attribute::parse_outer.parse2(quote_spanned![span=> #[ #tt ]])?);
+                }
+                Ok(Self { list })
             }
-            _ => unimplemented!("Can't deal with this kind of input"),
+            _ => Err(darling::Error::custom("Expected a list of attributes").with_span(input)),
         }
     }
 }
-- 
2.43.0


From 3edfba702e1479786bc27d74e1a7a283c71b70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:59 +0000
Subject: [PATCH 14/46] fix: public(some::module) was rejected as unknown
 visibility

---
 fieldx_aux/src/lib.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/fieldx_aux/src/lib.rs b/fieldx_aux/src/lib.rs
index fddaa48..d90e1d5 100644
--- a/fieldx_aux/src/lib.rs
+++ b/fieldx_aux/src/lib.rs
@@ -88,15 +88,14 @@ pub use crate::{
     value::FXValueArg,
     with_origin::FXOrig,
 };
-use darling::FromMeta;
+use darling::{ast::NestedMeta, FromMeta};
 use quote::{quote, ToTokens};
-use syn::{ext::IdentExt, Lit};
+use syn::{ext::IdentExt, Lit, Meta};
 
 /// Visibility of an element
-#[derive(FromMeta, Debug, Clone, Default)]
+#[derive(Debug, Clone, Default)]
 pub enum FXPubMode {
     /// private
-    #[darling(skip)]
     Private,
     /// `pub(crate)`
     Crate,
@@ -105,10 +104,44 @@ pub enum FXPubMode {
     /// `pub(in crate::Module)`
     InMod(syn::Path),
     #[default]
-    #[darling(skip)]
     All,
 }
 
+impl FXPubMode {
+    fn from_name(name: &str) -> darling::Result<Self> {
+        match name {
+            "crate" => Ok(Self::Crate),
+            "super" => Ok(Self::Super),
+            _ => Err(darling::Error::unknown_field_with_alts(name, &["crate", "super", "in_mod"])),
+        }
+    }
+}
+
+impl FromMeta for FXPubMode {
+    fn from_list(items: &[NestedMeta]) -> darling::Result<Self> {
+        match items {
+            [] => Err(darling::Error::too_few_items(1)),
+            [NestedMeta::Meta(Meta::Path(path))] => {
+                if path.segments.len() > 1 {
+                    Ok(Self::InMod(path.clone()))
+                }
+                else {
+                    Self::from_name(&path.to_token_stream().to_string()).map_err(|err| err.with_span(path))
+                }
+            }
+            [NestedMeta::Meta(meta)] if meta.path().is_ident("in_mod") => {
+                Ok(Self::InMod(syn::Path::from_meta(meta).map_err(|err| err.at("in_mod"))?))
+            }
+            [item] => Err(darling::Error::unsupported_format("literal or list").with_span(item)),
+            _ => Err(darling::Error::too_many_items(1)),
+        }
+    }
+
+    fn from_string(value: &str) -> darling::Result<Self> {
+        Self::from_name(value)
+    }
+}
+
 impl FromNestAttr for FXPubMode {
     fn for_keyword(_path: &syn::Path) -> darling::Result<Self> {
         Ok(Self::All)
-- 
2.43.0


From 27da88ff3942d67708945e954a5f4d6e22b80d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:59 +0000
Subject: [PATCH 15/46] fix: struct-level lock, reader or writer turned off
 must not make the struct plain

---
 fieldx_derive/src/util/args.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index f18d385..b185ce3 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -113,9 +113,15 @@ impl FXSArgs {
             .map(|th| th.is_true())
             .or_else(|| self.mode.as_ref().map(|m| m.is_sync() || m.is_async()))
             .or_else(|| self.is_async())
-            .or_else(|| self.lock().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.reader().as_ref().map(|th| th.is_true()))
-            .or_else(|| self.writer().as_ref().map(|th| th.is_true()))
+            .or_else(|| {
+                // Only the enabled ones ask for the sync mode; being off they have nothing to say about it.
+                if self.lock().is_true() || self.reader().is_true() || self.writer().is_true() {
+                    Some(true)
+                }
+                else {
+                    None
+                }
+            })
     }
 
     #[inline]
-- 
2.43.0


From 4293e5a9e2176d8ea367a6c828280482553bbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:59 +0000
Subject: [PATCH 16/46] fix: struct-level attributes are a fallback for the
 shadow struct, not for its fields

---
 fieldx_derive/src/codegen/serde.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 073c7ab..41efb95 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -144,8 +144,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
         let user_attrs = fctx
             .serde()
             .as_ref()
-            .and_then(|serde_helper| serde_helper.attributes().as_ref())
-            .or_else(|| self.ctx().args().attributes().as_ref());
+            .and_then(|serde_helper| serde_helper.attributes().as_ref());
         let ty = self.serde_shadow_field_type(fctx);
 
         self.ctx().add_shadow_field_decl(quote_spanned! [*fctx.span()=>
@@ -297,7 +296,7 @@ impl FXRewriteSerde for super::FXRewriter {
             let generics = ctx.input().generics();
             let (impl_generics, generic_params, where_clause) = generics.split_for_impl();
             let vis = serde_helper.public_mode().map(|pm| pm.to_token_stream());
-            let user_attributes = serde_helper.attributes();
+            let user_attributes = serde_helper.attributes().as_ref().or(args.attributes().as_ref());
 
             attrs.push(derive_attr);
 
-- 
2.43.0


From e55eb1489fb251b07c3ab76b653141b0d3c3cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:22 +0000
Subject: [PATCH 17/46] fix: visibility of a builder setter given at field
 level was ignored

---
 fieldx_derive/src/codegen/codegen_trait.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 634408a..a5e40f1 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -363,10 +363,16 @@ pub trait FXCodeGenContextual {
             let span = fctx.helper_span(FXHelperKind::Builder);
             let (gen_params, val_type, into_tok) = self.into_toks(fctx, fctx.is_builder_into());
             let attributes = self.attributes_fn(fctx, FXHelperKind::Builder, FXInlining::Always);
+            // Methods of the builder are public unless the field wants it otherwise.
+            let vis_tok = fctx
+                .builder()
+                .as_ref()
+                .and_then(|b| b.public_mode())
+                .map_or_else(|| quote_spanned![span=> pub], |pm| pm.to_token_stream());
             builder_name.set_span(span);
             Ok(quote_spanned![span=>
                 #attributes
-                pub fn #builder_name #gen_params(mut self, value: #val_type) -> Self {
+                #vis_tok fn #builder_name #gen_params(mut self, value: #val_type) -> Self {
                     self.#ident = ::std::option::Option::Some(value #into_tok);
                     self
                 }
-- 
2.43.0


From 918d9b02b0aaacc2cafb1757412d1602f88285ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 18/46] fix: serialization name given to a field's serde
 argument was ignored

---
 fieldx_derive/src/codegen/serde.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 41efb95..2216c3e 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -99,7 +99,12 @@ pub trait FXCGenSerde: FXCodeGenContextual {
                 serde_attr_args.push(default_arg);
             }
 
-            if let Some(base_name) = fctx.base_name() {
+            if let Some(serde_name) = fctx.serde().as_ref().and_then(|sh| sh.shadow_name()) {
+                // At the field level the literal sub-argument is the serialization name.
+                let span = fctx.serde().fx_span();
+                serde_attr_args.push(quote_spanned![span=> rename = #serde_name]);
+            }
+            else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
                 let base_name = base_name.to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
-- 
2.43.0


From 4b19a33a8964cbf1657a852c9619edb3a60d18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 19/46] fix: helper's public argument must not conflict with a
 private one that is off

---
 fieldx_derive_support/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fieldx_derive_support/src/lib.rs b/fieldx_derive_support/src/lib.rs
index a9690bd..b88a815 100644
--- a/fieldx_derive_support/src/lib.rs
+++ b/fieldx_derive_support/src/lib.rs
@@ -73,8 +73,12 @@ pub fn fxhelper(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
     exclusives.insert(
         "visibility".to_string(),
         vec![
-            (format_ident!("public"), quote![is_some]),
-            (format_ident!("private"), quote![is_some]),
+            (format_ident!("public"), quote![is_some()]),
+            // `private(off)` doesn't conflict with anything.
+            (
+                format_ident!("private"),
+                quote![as_ref().map_or(false, |p| p.is_true())],
+            ),
         ],
     );
 
@@ -84,10 +88,10 @@ pub fn fxhelper(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
                 let ident = ident.clone();
                 let check_method = if let syn::Type::Path(ref tpath) = field.ty {
                     if tpath.path.is_ident("Flag") {
-                        quote![is_present]
+                        quote![is_present()]
                     }
                     else {
-                        quote![is_some]
+                        quote![is_some()]
                     }
                 }
                 else {
@@ -152,7 +156,7 @@ pub fn fxhelper(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
         for (ident, check_method) in fields.iter() {
             let ident_str = ident.to_string();
             checks.push(quote![
-                if self.#ident.#check_method() {
+                if self.#ident.#check_method {
                     set_params.push(#ident_str);
                 }
             ]);
-- 
2.43.0


From 77893329b263c5028e75a5927d888f22093ca62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 20/46] fix: struct-level sync and r#async are conflicting
 concurrency modes

---
 fieldx_derive/src/util/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index b185ce3..f40bba2 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -68,7 +68,7 @@ impl FXSArgs {
     validate_exclusives!(
         "visibility": public; private;
         "accessor mode": copy; clone;
-        "concurrency mode": mode_sync as "sync", mode_async as "r#async"; inner_mut; mode;
+        "concurrency mode": mode_sync as "sync"; mode_async as "r#async"; inner_mut; mode;
         "field mode": lazy; optional, inner_mut;
         "serde/ref.counting": serde; rc;
     );
-- 
2.43.0


From 484e3efe2f8975254435b4e6ea3734d7f9b4e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 21/46] fix: unions must be rejected with an error, not a panic

---
 fieldx_derive/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fieldx_derive/src/lib.rs b/fieldx_derive/src/lib.rs
index a16d375..86b49bf 100644
--- a/fieldx_derive/src/lib.rs
+++ b/fieldx_derive/src/lib.rs
@@ -601,6 +601,15 @@ pub fn fxstruct(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
     };
 
     let input_ast = parse_macro_input!(input as DeriveInput);
+
+    // `darling` panics over unions.
+    if let syn::Data::Union(_) = input_ast.data {
+        return darling::Error::unsupported_shape("union")
+            .with_span(&input_ast.ident)
+            .write_errors()
+            .into();
+    }
+
     let fx = match FXInputReceiver::from_derive_input(&input_ast) {
         Ok(v) => v,
         Err(e) => return darling::Error::from(e).write_errors().into(),
-- 
2.43.0


From 63c8341cbd5c3d5d8a2743c89efa379c95eb7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:18 +0000
Subject: [PATCH 22/46] fix: names which are not identifiers must be rejected,
 keywords made raw

---
 fieldx_derive/src/codegen/codegen_trait.rs | 27 +++++++++-------------
 fieldx_derive/src/codegen/serde.rs         |  4 ++--
 fieldx_derive/src/fields.rs                |  7 +++++-
 fieldx_derive/src/util.rs                  | 21 ++++++++++++++++-
 fieldx_derive/src/util/args.rs             | 12 ++++++++++
 5 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index a5e40f1..f2b9c41 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -1,11 +1,11 @@
 use super::{FXCodeGenCtx, FXCodeGenPlain, FXCodeGenSync, FXFieldCtx, FXInlining, FXValueRepr};
-use crate::{helper::*, FXInputReceiver};
+use crate::{helper::*, util::str_to_ident, FXInputReceiver};
 use darling::ast::NestedMeta;
 use enum_dispatch::enum_dispatch;
 use proc_macro2::{Span, TokenStream, TokenTree};
-use quote::{format_ident, quote, quote_spanned, ToTokens};
+use quote::{quote, quote_spanned, ToTokens};
 use std::rc::Rc;
-use syn::{spanned::Spanned, Ident, Lit};
+use syn::{ext::IdentExt, spanned::Spanned, Ident, Lit};
 
 #[enum_dispatch]
 pub enum FXCodeGenerator {
@@ -109,25 +109,22 @@ pub trait FXCodeGenContextual {
         if let Some(ref h) = fctx.get_helper(helper_kind) {
             if let Some(ref name) = h.name() {
                 if !name.is_empty() {
-                    return Ok(format_ident!("{}", name, span = helper_span));
+                    return str_to_ident(name, helper_span);
                 }
             }
         }
 
         #[cfg(not(feature = "diagnostics"))]
-        let mut helper_base_name = fctx.helper_base_name()?;
+        let helper_base_name = fctx.helper_base_name()?;
 
         #[cfg(feature = "diagnostics")]
-        let mut helper_base_name = fctx.helper_base_name().map_err(|err| {
+        let helper_base_name = fctx.helper_base_name().map_err(|err| {
             err.note(format!(
                 "Field name is required for generating '{}' helper.",
                 helper_kind.to_string()
             ))
         })?;
 
-        // Make items, generated for for a helper, point back at the helper declaration.
-        helper_base_name.set_span(helper_span);
-
         let args_helper = self.ctx().args().get_helper(helper_kind);
         let prefix = args_helper
             .and_then(|h| h.name())
@@ -135,13 +132,11 @@ pub trait FXCodeGenContextual {
             .unwrap_or("");
         let suffix = helper_kind.default_suffix().unwrap_or("");
 
-        Ok(format_ident!(
-            "{}{}{}",
-            prefix,
-            helper_base_name,
-            suffix,
-            span = helper_span
-        ))
+        // Make items, generated for for a helper, point back at the helper declaration.
+        str_to_ident(
+            &format!("{}{}{}", prefix, helper_base_name.unraw(), suffix),
+            helper_span,
+        )
     }
 
     fn helper_name_tok(&self, fctx: &FXFieldCtx, helper_kind: FXHelperKind) -> darling::Result<TokenStream> {
diff --git a/fieldx_derive/src/codegen/serde.rs b/fieldx_derive/src/codegen/serde.rs
index 2216c3e..b52c0b1 100644
--- a/fieldx_derive/src/codegen/serde.rs
+++ b/fieldx_derive/src/codegen/serde.rs
@@ -3,7 +3,7 @@ use crate::helper::FXOrig;
 use darling::ast::NestedMeta;
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
-use syn::{spanned::Spanned, Meta};
+use syn::{ext::IdentExt, spanned::Spanned, Meta};
 
 pub trait FXCGenSerde: FXCodeGenContextual {
     // Field is an Option in the shadow struct if it is optional or lazy and has no default value
@@ -106,7 +106,7 @@ pub trait FXCGenSerde: FXCodeGenContextual {
             }
             else if let Some(base_name) = fctx.base_name() {
                 let span = base_name.span();
-                let base_name = base_name.to_string();
+                let base_name = base_name.unraw().to_string();
                 serde_attr_args.push(quote_spanned![span=> rename = #base_name]);
             }
 
diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 5c5cb37..e3e0884 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -167,6 +167,10 @@ impl FXFieldReceiver {
             acc.push(err);
         }
 
+        if let Some(name) = self.base_name.as_ref().and_then(|bn| bn.value()) {
+            acc.handle(crate::util::str_to_ident(name, Span::call_site()));
+        }
+
         acc.finish()?;
 
         Ok(())
@@ -195,7 +199,8 @@ impl FXFieldReceiver {
 
     pub fn base_name(&self) -> Option<syn::Ident> {
         if let Some(ref bn) = self.base_name {
-            bn.value().map(|name| syn::Ident::new(name, bn.span()))
+            bn.value()
+                .and_then(|name| crate::util::str_to_ident(name, bn.span()).ok())
         }
         else {
             None
diff --git a/fieldx_derive/src/util.rs b/fieldx_derive/src/util.rs
index 07a9328..21706ca 100644
--- a/fieldx_derive/src/util.rs
+++ b/fieldx_derive/src/util.rs
@@ -1,6 +1,6 @@
 pub(crate) mod args;
 use fieldx_aux::{FXOrig, FXTriggerHelper};
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
 #[allow(dead_code)]
@@ -94,6 +94,25 @@ pub(crate) use TODO;
 //     }
 // }
 
+/// Make an identifier of a string given by the user. Keywords become raw identifiers.
+pub(crate) fn str_to_ident(name: &str, span: Span) -> darling::Result<syn::Ident> {
+    let mut ident = syn::parse_str::<syn::Ident>(name)
+        .or_else(|_| syn::parse_str::<syn::Ident>(&format!("r#{}", name)))
+        .map_err(|_| darling::Error::custom(format!("'{}' is not a valid identifier", name)).with_span(&span))?;
+    ident.set_span(span);
+    Ok(ident)
+}
+
+/// Make sure that a string given by the user can be used both as an identifier and as a part of it.
+pub(crate) fn validate_ident(name: Option<&str>, span: Span) -> darling::Result<()> {
+    match name {
+        Some(name) if name.starts_with("r#") || syn::parse_str::<syn::Ident>(name).is_err() => {
+            Err(darling::Error::custom(format!("'{}' is not a valid identifier", name)).with_span(&span))
+        }
+        _ => Ok(()),
+    }
+}
+
 #[allow(dead_code)]
 pub(crate) fn feature_required<T, O>(feature: &str, arg: &Option<T>) -> Option<darling::Error>
 where
diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index f40bba2..02b2d5c 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -101,6 +101,18 @@ impl FXSArgs {
             acc.push(err);
         }
 
+        if let Some(rc) = &self.rc {
+            acc.handle(crate::util::validate_ident(rc.name(), rc.fx_span()));
+        }
+
+        #[cfg(feature = "serde")]
+        if let Some(serde) = &self.serde {
+            acc.handle(crate::util::validate_ident(
+                serde.shadow_name().map(|n| n.as_str()),
+                serde.fx_span(),
+            ));
+        }
+
         acc.finish()?;
 
         Ok(self)
-- 
2.43.0


From 9f70cb7dfbedf4ca7ed75dd6399763e615e6064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:17 +0000
Subject: [PATCH 23/46] fix: valueless default of optional or lazy sync field
 made the macro panic

---
 fieldx_derive/src/codegen/sync.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 4fa27eb..f47863f 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -383,7 +383,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
         let is_lazy = fctx.is_lazy();
         let default = self.field_default_value(fctx);
         let lazy_builder = self.implementor(fctx).lazy_builder(self, fctx)?;
-        let or_default = if fctx.has_default_value() {
+        // Valueless default of an optional or a lazy field has nothing to offer.
+        let or_default = if fctx.has_default_value() && !default.is_none() {
             let default = self.fixup_self_type(default.clone().expect(&format!(
                 "Internal problem: expected default value for field {}",
                 fctx.ident_str()
-- 
2.43.0


From fdf60bb011ff7487973c68d234e08abd4a9edf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 24/46] fix: default(off) took off for the default value

---
 fieldx_aux/src/default_arg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fieldx_aux/src/default_arg.rs b/fieldx_aux/src/default_arg.rs
index b150c03..c0200f9 100644
--- a/fieldx_aux/src/default_arg.rs
+++ b/fieldx_aux/src/default_arg.rs
@@ -63,6 +63,10 @@ impl<const OPTIONAL: bool> FromMeta for FXDefault<OPTIONAL> {
         else if items.len() > 2 {
             return Err(darling::Error::too_many_items(2));
         }
+        else if matches!(&items[0], NestedMeta::Meta(Meta::Path(path)) if path.is_ident("off")) {
+            off = true;
+            None
+        }
         else {
             Some(items[0].clone())
         };
-- 
2.43.0


From 311f7c3d48707693cf8c1782a667174fe12150c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 25/46] fix: copy(off) and clone(off) made accessors cloning
 ones

---
 fieldx_derive/src/ctx/field.rs | 55 ++++++++++++++--------------------
 fieldx_derive/src/fields.rs    | 10 -------
 fieldx_derive/src/util/args.rs | 10 -------
 3 files changed, 23 insertions(+), 52 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 1a10bf9..01a6180 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -213,22 +213,12 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_copy(&self) -> bool {
-        self.field
-            .is_accessor_copy()
-            .or_else(|| self.field.is_copy())
-            .or_else(|| self.codegen_ctx().args().is_accessor_copy())
-            .or_else(|| self.codegen_ctx().args().is_copy())
-            .unwrap_or(false)
+        self.accessor_mode() == FXAccessorMode::Copy
     }
 
     #[inline]
     pub fn is_clone(&self) -> bool {
-        self.field
-            .is_accessor_clone()
-            .or_else(|| self.field.is_clone())
-            .or_else(|| self.codegen_ctx().args().is_accessor_clone())
-            .or_else(|| self.codegen_ctx().args().is_clone())
-            .unwrap_or(false)
+        self.accessor_mode() == FXAccessorMode::Clone
     }
 
     #[inline]
@@ -277,28 +267,29 @@ impl FXFieldCtx {
     }
 
     pub fn accessor_mode(&self) -> FXAccessorMode {
-        self.field
+        fn generic_mode(is_copy: Option<bool>, is_clone: Option<bool>) -> Option<FXAccessorMode> {
+            match (is_copy, is_clone) {
+                (Some(true), _) => Some(FXAccessorMode::Copy),
+                (_, Some(true)) => Some(FXAccessorMode::Clone),
+                _ => None,
+            }
+        }
+
+        let field = &self.field;
+        let args = self.codegen_ctx.args();
+
+        field
             .accessor_mode()
+            .or_else(|| generic_mode(field.is_copy(), field.is_clone()))
             .or_else(|| {
-                self.field.is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
-            })
-            .or_else(|| self.codegen_ctx.args().accessor_mode())
-            .or_else(|| {
-                self.codegen_ctx.args().is_copy().and_then(|is_copy| {
-                    if is_copy {
-                        Some(FXAccessorMode::Copy)
-                    }
-                    else {
-                        Some(FXAccessorMode::Clone)
-                    }
-                })
+                args.accessor_mode()
+                    .or_else(|| generic_mode(args.is_copy(), args.is_clone()))
+                    // The field may have the struct-level mode turned off.
+                    .filter(|mode| match mode {
+                        FXAccessorMode::Copy => field.is_copy() != Some(false),
+                        FXAccessorMode::Clone => field.is_clone() != Some(false),
+                        _ => true,
+                    })
             })
             .unwrap_or(FXAccessorMode::None)
     }
diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index e3e0884..5a4ad84 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -289,16 +289,6 @@ impl FXFieldReceiver {
         }
     }
 
-    #[inline]
-    pub fn is_accessor_copy(&self) -> Option<bool> {
-        self.accessor_mode().map(|m| m == FXAccessorMode::Copy)
-    }
-
-    #[inline]
-    pub fn is_accessor_clone(&self) -> Option<bool> {
-        self.accessor_mode().map(|m| m == FXAccessorMode::Clone)
-    }
-
     #[inline]
     pub fn is_skipped(&self) -> bool {
         self.skip.is_present()
diff --git a/fieldx_derive/src/util/args.rs b/fieldx_derive/src/util/args.rs
index 02b2d5c..1a7d5d3 100644
--- a/fieldx_derive/src/util/args.rs
+++ b/fieldx_derive/src/util/args.rs
@@ -181,16 +181,6 @@ impl FXSArgs {
         }
     }
 
-    #[inline]
-    pub fn is_accessor_copy(&self) -> Option<bool> {
-        self.accessor_mode().map(|m| m == FXAccessorMode::Copy)
-    }
-
-    #[inline]
-    pub fn is_accessor_clone(&self) -> Option<bool> {
-        self.accessor_mode().map(|m| m == FXAccessorMode::Clone)
-    }
-
     #[inline]
     pub fn is_setter_into(&self) -> Option<bool> {
         self.setter.as_ref().and_then(|h| h.is_into())
-- 
2.43.0


From 252e9c43bc71c87abf81fcb572e9ca3b837cd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 26/46] fix: struct-level lazy of a sync struct did not make
 Default needed

---
 fieldx_derive/src/ctx/codegen.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index 8edbd32..2c04a2e 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -404,12 +404,11 @@ impl FXCodeGenCtx {
 
             let is_sync = self.is_rather_sync();
 
-            if self
-                .input()
-                .fields()
-                .iter()
-                .any(|f| f.has_default_value() || (is_sync && f.is_lazy().unwrap_or(false)))
-            {
+            let is_lazy = args.is_lazy().unwrap_or(false);
+
+            if self.input().fields().iter().any(|f| {
+                f.has_default_value() || (is_sync && !f.is_skipped() && f.is_lazy().unwrap_or(is_lazy))
+            }) {
                 return true;
             }
 
-- 
2.43.0


From ce3834d63d2f6ea6f1c97a3bff364d1c0b02f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:41 +0000
Subject: [PATCH 27/46] fix: whether a struct is sync depended on the order of
 fields turning sync off

---
 fieldx_derive/src/ctx/codegen.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index 2c04a2e..675c6b0 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -436,14 +436,8 @@ impl FXCodeGenCtx {
     pub fn is_rather_sync(&self) -> bool {
         *self.is_rather_sync.borrow_mut().get_or_init(|| {
             self.args.is_sync().map_or_else(
-                || {
-                    for field in self.all_fields() {
-                        if let Some(is_sync) = field.is_sync() {
-                            return is_sync;
-                        }
-                    }
-                    false
-                },
+                // A field opting out of sync says nothing about the others.
+                || self.all_fields().iter().any(|field| field.is_sync() == Some(true)),
                 |is_sync| is_sync,
             )
         })
-- 
2.43.0


From 0539f94c95c97394661d1dffb8a2a856893f80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:59 +0000
Subject: [PATCH 28/46] fix: a name or attributes of a field's disabled builder
 were still in effect

---
 fieldx_derive/src/codegen/codegen_trait.rs | 6 +++++-
 fieldx_derive/src/ctx/field.rs             | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index f2b9c41..2ce12c6 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -382,7 +382,11 @@ pub trait FXCodeGenContextual {
         let ident = fctx.ident_tok();
         let span = *fctx.span();
         let ty = fctx.ty().to_token_stream();
-        let attributes = fctx.builder().as_ref().and_then(|b| b.attributes());
+        let attributes = fctx
+            .builder()
+            .as_ref()
+            .filter(|b| b.is_true())
+            .and_then(|b| b.attributes());
         // Precautionary measure as this kind of fields are unlikely to be read. Yet, some of them may affect validity
         // of the builder like, for example, when they may refer to generic lifetimes.
         let allow_attr = if !fctx.forced_builder() && !fctx.needs_builder() {
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 01a6180..47cec7b 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -7,7 +7,7 @@ use darling::ast::NestedMeta;
 use delegate::delegate;
 #[cfg(feature = "serde")]
 use fieldx_aux::FXSerde;
-use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode};
+use fieldx_aux::{FXAccessorMode, FXAttributes, FXBool, FXBuilder, FXHelperTrait, FXOrig, FXPubMode, FXTriggerHelper};
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
 use std::{
@@ -185,7 +185,9 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn forced_builder(&self) -> bool {
-        self.builder().as_ref().map_or(false, |b| b.name().is_some())
+        self.builder()
+            .as_ref()
+            .map_or(false, |b| b.is_true() && b.name().is_some())
     }
 
     #[inline]
-- 
2.43.0


From ed47cef134ce07c2954123fd94865958e54cc1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 29/46] fix: skipped fields must not be fallible by
 struct-level argument

The hidden weak self-reference of a reference counted struct demanded
an error type.
---
 fieldx_derive/src/ctx/field.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 47cec7b..0a0bb96 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -207,10 +207,12 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        self.field
-            .is_fallible()
-            .or_else(|| self.codegen_ctx().args().is_fallible())
-            .unwrap_or(false)
+        !self.is_skipped()
+            && self
+                .field
+                .is_fallible()
+                .or_else(|| self.codegen_ctx().args().is_fallible())
+                .unwrap_or(false)
     }
 
     #[inline]
-- 
2.43.0


From 1a48c8ce8b24a8c3eb0e3ff906762a94bd71b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 30/46] fix: skipped fields left out of the object made by the
 builder

A struct with a skipped field and a builder didn't compile because the builder's
initializer of the struct had no such field.
---
 fieldx_derive/src/codegen/codegen_trait.rs | 14 ++++++++-----
 fieldx_derive/src/ctx/field.rs             | 23 ++++++++++++----------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index 2ce12c6..e378072 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -306,11 +306,15 @@ pub trait FXCodeGenContextual {
             ctx.add_method_decl(self.field_clearer(&fctx)?);
             ctx.add_method_decl(self.field_predicate(&fctx)?);
             ctx.add_method_decl(self.field_lazy_builder_wrapper(&fctx)?);
-            if ctx.needs_builder_struct() {
-                ctx.add_builder_decl(self.field_builder(&fctx)?);
-                ctx.add_builder_field_decl(self.field_builder_field(&fctx)?);
-                ctx.add_builder_field_ident(fctx.ident().clone());
-            }
+        }
+
+        // The builder takes care of the self-reference of a reference counted struct on its own. Anything else, skipped
+        // fields included, has to be initialized.
+        let ctx = self.ctx();
+        if ctx.needs_builder_struct() && ctx.myself_field().as_ref() != Some(fctx.ident()) {
+            ctx.add_builder_decl(self.field_builder(&fctx)?);
+            ctx.add_builder_field_decl(self.field_builder_field(&fctx)?);
+            ctx.add_builder_field_ident(fctx.ident().clone());
         }
 
         Ok(())
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 0a0bb96..6af511f 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -113,13 +113,14 @@ impl FXFieldCtx {
     #[inline]
     pub fn needs_builder(&self) -> bool {
         let codegen_ctx = self.codegen_ctx();
-        self.field.needs_builder().unwrap_or_else(|| {
-            codegen_ctx
-                .args()
-                .needs_builder()
-                .as_ref()
-                .map_or(false, |needs| *needs && !codegen_ctx.is_builder_opt_in())
-        })
+        !self.is_skipped()
+            && self.field.needs_builder().unwrap_or_else(|| {
+                codegen_ctx
+                    .args()
+                    .needs_builder()
+                    .as_ref()
+                    .map_or(false, |needs| *needs && !codegen_ctx.is_builder_opt_in())
+            })
     }
 
     #[inline]
@@ -185,9 +186,11 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn forced_builder(&self) -> bool {
-        self.builder()
-            .as_ref()
-            .map_or(false, |b| b.is_true() && b.name().is_some())
+        !self.is_skipped()
+            && self
+                .builder()
+                .as_ref()
+                .map_or(false, |b| b.is_true() && b.name().is_some())
     }
 
     #[inline]
-- 
2.43.0


From a6f37efd1c2f45dffd88ee3d44b842d68af9caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 31/46] fix: rc(off) along with a builder initialized a
 self-reference which isn't there

---
 fieldx_derive/src/ctx/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/ctx/codegen.rs b/fieldx_derive/src/ctx/codegen.rs
index 675c6b0..2ef4f9e 100644
--- a/fieldx_derive/src/ctx/codegen.rs
+++ b/fieldx_derive/src/ctx/codegen.rs
@@ -422,7 +422,7 @@ impl FXCodeGenCtx {
     }
 
     pub fn myself_names(&self) -> Option<(Ident, Ident)> {
-        self.args().rc().as_ref().map(|rc_helper| {
+        self.args().rc().as_ref().filter(|_| self.args().is_ref_counted()).map(|rc_helper| {
             let myself_name = rc_helper.name().unwrap_or("myself");
             (
                 format_ident!("{}", myself_name),
-- 
2.43.0


From 7837a9815ea85ea8d2b6222d9f113536ededc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 32/46] fix: reference counted structs with a fallible
 post-build method didn't compile

---
 fieldx_derive/src/codegen/codegen_trait.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/fieldx_derive/src/codegen/codegen_trait.rs b/fieldx_derive/src/codegen/codegen_trait.rs
index e378072..d4aa5ea 100644
--- a/fieldx_derive/src/codegen/codegen_trait.rs
+++ b/fieldx_derive/src/codegen/codegen_trait.rs
@@ -232,6 +232,7 @@ pub trait FXCodeGenContextual {
     ) -> TokenStream {
         let ctx = self.ctx();
         let args = ctx.args();
+        let post_construct_is_fallible = init.is_some() && ctx.build_has_error_type();
         let post_constuct = if let Some(init) = init {
             let shortcut = if ctx.build_has_error_type() {
                 quote![?]
@@ -248,6 +249,26 @@ pub trait FXCodeGenContextual {
         if args.is_ref_counted() {
             let (rc_type, _) = self.ref_count_types();
             let myself_field = ctx.myself_field();
+
+            if post_construct_is_fallible {
+                // An error can't be returned from within the new_cyclic closure
+                return quote![
+                    {
+                        let mut post_built = #self_name {
+                            #myself_field: ::std::default::Default::default(),
+                            #struct_init
+                        }
+                        #post_constuct;
+                        #rc_type::new_cyclic(
+                            move |me| {
+                                post_built.#myself_field = me.clone();
+                                post_built
+                            }
+                        )
+                    }
+                ];
+            }
+
             quote![
                 #rc_type::new_cyclic(
                     |me| {
-- 
2.43.0


From 04295c7d44990cad4cfd6655c32955f750d36a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:10 +0000
Subject: [PATCH 33/46] fix: comparison of sync containers could deadlock with
 a waiting writer

---
 fieldx/src/sync/fxlock.rs  | 3 ++-
 fieldx/src/sync/fxproxy.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/sync/fxlock.rs b/fieldx/src/sync/fxlock.rs
index d7bf6e5..745d50a 100644
--- a/fieldx/src/sync/fxlock.rs
+++ b/fieldx/src/sync/fxlock.rs
@@ -26,7 +26,8 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.0.read();
-        let otherguard = other.0.read();
+        // Must not wait for a writer which waits for a comparison in the opposite direction, or of the object with itself.
+        let otherguard = other.0.read_recursive();
 
         myguard.eq(&otherguard)
     }
diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 4764596..0a4c36a 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -263,7 +263,8 @@ where
 {
     fn eq(&self, other: &Self) -> bool {
         let myguard = self.value.read();
-        let otherguard = other.value.read();
+        // Must not wait for a writer which waits for a comparison in the opposite direction, or of the object with itself.
+        let otherguard = other.value.read_recursive();
         myguard.eq(&otherguard)
     }
 }
-- 
2.43.0


From c36ed0f893677d469587069b7516af24682c3c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:23 +0000
Subject: [PATCH 34/46] fix: tuple arguments rejected elements which are not
 meta items

---
 fieldx_aux/src/syn_value.rs | 44 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/fieldx_aux/src/syn_value.rs b/fieldx_aux/src/syn_value.rs
index 6a0c99d..70ce143 100644
--- a/fieldx_aux/src/syn_value.rs
+++ b/fieldx_aux/src/syn_value.rs
@@ -3,7 +3,12 @@ use super::{FXFrom, FromNestAttr};
 use darling::{ast::NestedMeta, FromMeta};
 use quote::ToTokens;
 use std::{borrow::Borrow, fmt::Debug, marker::PhantomData, ops::Deref};
-use syn::{parse::Parse, punctuated::Punctuated, spanned::Spanned, Meta};
+use syn::{
+    parse::{Parse, ParseStream},
+    punctuated::Punctuated,
+    spanned::Spanned,
+    Meta,
+};
 
 /// Argument that takes exactly one syntax element.
 ///
@@ -146,6 +151,28 @@ impl<T> FXSynTupleArg<T> {
     }
 }
 
+// Elements are parsed one by one directly from the tokens since not everything implementing `Parse` is a valid meta item.
+fn tuple_element<T: Parse>(input: ParseStream, index: &mut usize, expected: usize) -> syn::Result<T> {
+    if *index > 0 && !input.is_empty() {
+        input.parse::<syn::Token![,]>()?;
+    }
+    if input.is_empty() {
+        return Err(darling::Error::too_few_items(expected).with_span(&input.span()).into());
+    }
+    *index += 1;
+    input.parse()
+}
+
+fn tuple_end(input: ParseStream, expected: usize) -> syn::Result<()> {
+    if !input.is_empty() {
+        input.parse::<syn::Token![,]>()?;
+    }
+    if !input.is_empty() {
+        return Err(darling::Error::too_many_items(expected).with_span(&input.span()).into());
+    }
+    Ok(())
+}
+
 macro_rules! from_tuple {
     ( $( ( $( $ty:ident ),+ ) ),+ $(,)* ) => {
         $(
@@ -156,6 +183,21 @@ macro_rules! from_tuple {
             impl< $( $ty, )+ > FromMeta for FXSynTupleArg<( $( $ty ),+ )>
             where $( $ty: syn::parse::Parse ),+
             {
+                fn from_meta(item: &Meta) -> darling::Result<Self> {
+                    let Meta::List(list) = item
+                    else {
+                        return Err(darling::Error::unsupported_format("argument is expected").with_span(item));
+                    };
+                    let expected = from_tuple!(@count $($ty),+);
+                    let value = list.parse_args_with(|input: ParseStream| {
+                        let mut index = 0;
+                        let value = ( $( tuple_element::<$ty>(input, &mut index, expected)? ),+ );
+                        tuple_end(input, expected)?;
+                        Ok(value)
+                    })?;
+                    Ok(Self { value })
+                }
+
                 fn from_list(items: &[NestedMeta]) -> darling::Result<Self> {
                     let expected = from_tuple!(@count $($ty),+);
                     if items.len() > expected {
-- 
2.43.0


From 41febe134ac152dfc18d323d950b6e29229001e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:07 +0000
Subject: [PATCH 35/46] fix: a helper made of a boolean was on when it must be
 off and vice versa

---
 fieldx_aux/src/base_helper.rs | 2 +-
 fieldx_derive/src/fields.rs   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fieldx_aux/src/base_helper.rs b/fieldx_aux/src/base_helper.rs
index 181d836..671d2d1 100644
--- a/fieldx_aux/src/base_helper.rs
+++ b/fieldx_aux/src/base_helper.rs
@@ -53,7 +53,7 @@ impl<const BOOL_ONLY: bool> From<&FXBaseHelper<BOOL_ONLY>> for bool {
 impl<const BOOL_ONLY: bool> From<bool> for FXBaseHelper<BOOL_ONLY> {
     fn from(value: bool) -> Self {
         Self {
-            off: Flag::from(value),
+            off: Flag::from(!value),
             ..Default::default()
         }
     }
diff --git a/fieldx_derive/src/fields.rs b/fieldx_derive/src/fields.rs
index 5a4ad84..dcd8fbc 100644
--- a/fieldx_derive/src/fields.rs
+++ b/fieldx_derive/src/fields.rs
@@ -344,9 +344,9 @@ impl FXFieldReceiver {
     fn mark_implicitly(&mut self, orig: Meta) -> Result<(), &str> {
         match self.lazy {
             None => {
-                self.lazy = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig.clone())));
-                self.clearer = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig.clone())));
-                self.predicate = Some(FXNestingAttr::new(FXBaseHelper::from(true), Some(orig)));
+                self.lazy = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig.clone())));
+                self.clearer = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig.clone())));
+                self.predicate = Some(FXNestingAttr::new(FXBaseHelper::from(false), Some(orig)));
             }
             _ => (),
         };
-- 
2.43.0


From 33166a6d3e9bc9a37c1a14e6752f5eb5eaffe776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 36/46] fix: clearer of a sync field with lock(off) didn't
 compile

---
 fieldx_derive/src/codegen/sync.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index f47863f..7790e1d 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -592,8 +592,8 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
-            else {
-                // If not lazy then it's optional
+            // If not lazy then it's optional
+            else if fctx.needs_lock() {
                 quote_spanned![span=>
                     #[inline]
                     #attributes_fn
@@ -602,6 +602,15 @@ impl FXCodeGenContextual for FXCodeGenSync {
                     }
                 ]
             }
+            else {
+                quote_spanned![span=>
+                    #[inline]
+                    #attributes_fn
+                    #vis_tok fn #clear_name(&mut self) -> ::std::option::Option<#ty> {
+                       self.#ident.take()
+                    }
+                ]
+            }
         }
         else {
             TokenStream::new()
-- 
2.43.0


From ec1a2c81d0e37a117caacf5a6641ba55ef28df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 37/46] fix: serialization of an optional sync field with
 lock(off) didn't compile

---
 fieldx_derive/src/codegen/sync.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/sync.rs b/fieldx_derive/src/codegen/sync.rs
index 7790e1d..f7b6433 100644
--- a/fieldx_derive/src/codegen/sync.rs
+++ b/fieldx_derive/src/codegen/sync.rs
@@ -452,7 +452,7 @@ impl FXCodeGenContextual for FXCodeGenSync {
     fn field_from_struct(&self, fctx: &FXFieldCtx) -> darling::Result<TokenStream> {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
-        Ok(if self.is_serde_optional(fctx) || fctx.needs_lock() {
+        Ok(if fctx.is_lazy() || fctx.needs_lock() {
             quote![ #me_var.#field_ident.into_inner() ]
         }
         else {
-- 
2.43.0


From 0a6749f50b0afb77b5c861907ac854e1b2929e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:42 +0000
Subject: [PATCH 38/46] fix: serialization of an inner_mut field required its
 type to implement Default

---
 fieldx_derive/src/codegen/plain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index 12c9784..528c7ee 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -464,9 +464,12 @@ impl FXCodeGenContextual for FXCodeGenPlain {
         let field_ident = fctx.ident_tok();
         let me_var = self.ctx().me_var_ident();
 
-        Ok(if fctx.is_lazy() || fctx.is_inner_mut() {
+        Ok(if fctx.is_lazy() {
             quote![ #me_var.#field_ident.take() ]
         }
+        else if fctx.is_inner_mut() {
+            quote![ #me_var.#field_ident.into_inner() ]
+        }
         else if fctx.is_optional() {
             quote![ #me_var.#field_ident ]
         }
-- 
2.43.0


From a3246f45146e90c15f6a327b9aeb92ad312e67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:50 +0000
Subject: [PATCH 39/46] fix: fields which aren't lazy must not be fallible by
 struct-level argument

---
 fieldx_derive/src/ctx/field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index 6af511f..b9b12f4 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -210,7 +210,8 @@ impl FXFieldCtx {
 
     #[inline]
     pub fn is_fallible(&self) -> bool {
-        !self.is_skipped()
+        // It's only about lazy builders.
+        self.is_lazy()
             && self
                 .field
                 .is_fallible()
-- 
2.43.0


From 4c91894e216e3c40cb6a647438f5e264c667a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:20 +0000
Subject: [PATCH 40/46] fix: cloning a struct with fallible lazy sync fields
 required the error type to be Clone

---
 fieldx/src/sync/fxproxy.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fieldx/src/sync/fxproxy.rs b/fieldx/src/sync/fxproxy.rs
index 0a4c36a..b2ce878 100644
--- a/fieldx/src/sync/fxproxy.rs
+++ b/fieldx/src/sync/fxproxy.rs
@@ -15,11 +15,17 @@ pub trait FXBuilderWrapperSync: FXBuilderWrapper {
 }
 
 #[doc(hidden)]
-#[derive(Clone)]
 pub struct FXBuilderInfallible<S, T> {
     builder: fn(&S) -> T,
 }
 
+// Neither the owner nor the value are cloned, thus no bounds for them.
+impl<S, T> Clone for FXBuilderInfallible<S, T> {
+    fn clone(&self) -> Self {
+        Self { builder: self.builder }
+    }
+}
+
 impl<S, T> FXBuilderInfallible<S, T> {
     pub fn new(builder: fn(&S) -> T) -> Self {
         Self { builder }
@@ -40,11 +46,16 @@ impl<S: FXStruct, T> FXBuilderWrapperSync for FXBuilderInfallible<S, T> {
 }
 
 #[doc(hidden)]
-#[derive(Clone)]
 pub struct FXBuilderFallible<S, T, E> {
     builder: fn(&S) -> Result<T, E>,
 }
 
+impl<S, T, E> Clone for FXBuilderFallible<S, T, E> {
+    fn clone(&self) -> Self {
+        Self { builder: self.builder }
+    }
+}
+
 impl<S, T, E> FXBuilderFallible<S, T, E> {
     pub fn new(builder: fn(&S) -> Result<T, E>) -> Self {
         Self { builder }
-- 
2.43.0


From 75a172f119e25d80d67129075fbbe9dc102668ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:52 +0000
Subject: [PATCH 41/46] fix: generated code depended on Default, FXStruct, Ok,
 Some, None, Send, Sized and Copy being the standard ones where the struct is
 declared

---
 fieldx_derive/src/codegen.rs                 | 10 +++++-----
 fieldx_derive/src/codegen/plain.rs           |  4 ++--
 fieldx_derive/src/codegen/sync/impl_async.rs |  2 +-
 fieldx_derive/src/ctx/field.rs               |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 7c5e3dd..5d40286 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -292,7 +292,7 @@ impl FXRewriter {
 
         if !defaults.is_empty() {
             quote! [
-                impl #impl_generics Default for #ident #type_generics #where_clause {
+                impl #impl_generics ::std::default::Default for #ident #type_generics #where_clause {
                     fn default() -> Self {
                         Self { #defaults }
                     }
@@ -344,7 +344,7 @@ impl FXRewriter {
         for fctx in self.builder_field_ctxs() {
             if let Ok(fctx) = fctx {
                 let ident = fctx.ident();
-                fields_new.push(quote! { #ident: None });
+                fields_new.push(quote! { #ident: ::std::option::Option::None });
 
                 let fgen = match self.field_codegen(&fctx) {
                     Ok(fgen) => fgen,
@@ -413,7 +413,7 @@ impl FXRewriter {
                 #builders
                 #vis fn build(&mut self) -> ::std::result::Result<#builder_return_type, #builder_error_type> {
                     #( #builder_checkers );*
-                    Ok(#construction)
+                    ::std::result::Result::Ok(#construction)
                 }
             }
         ]
@@ -491,7 +491,7 @@ impl FXRewriter {
             Some(quote![
                 #[allow(dead_code)]
                 fn __fieldx_copy_validation() {
-                    fn field_implements_copy<T: ?Sized + Copy>() {}
+                    fn field_implements_copy<T: ?::std::marker::Sized + ::std::marker::Copy>() {}
                     #( field_implements_copy::<#copyables>(); )*
                 }
             ])
@@ -511,7 +511,7 @@ impl FXRewriter {
                 #( #fields ),*
             }
 
-            impl #impl_generics FXStruct for #ident #type_generics #where_clause {}
+            impl #impl_generics ::fieldx::traits::FXStruct for #ident #type_generics #where_clause {}
 
             #attributes_impl
             impl #impl_generics #ident #type_generics #where_clause {
diff --git a/fieldx_derive/src/codegen/plain.rs b/fieldx_derive/src/codegen/plain.rs
index 528c7ee..2eb6609 100644
--- a/fieldx_derive/src/codegen/plain.rs
+++ b/fieldx_derive/src/codegen/plain.rs
@@ -163,7 +163,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
                 let mut shortcut = quote![];
 
                 if fctx.is_fallible() {
-                    get_mut = quote_spanned! {span=> Ok(#get_mut) };
+                    get_mut = quote_spanned! {span=> ::std::result::Result::Ok(#get_mut) };
                     shortcut = quote_spanned![span=> ?];
                 }
 
@@ -263,7 +263,7 @@ impl FXCodeGenContextual for FXCodeGenPlain {
 
                 if fctx.is_inner_mut() {
                     let value_tok = if fctx.is_optional() {
-                        quote![Some(value #into_tok)]
+                        quote![::std::option::Option::Some(value #into_tok)]
                     }
                     else {
                         quote![value #into_tok]
diff --git a/fieldx_derive/src/codegen/sync/impl_async.rs b/fieldx_derive/src/codegen/sync/impl_async.rs
index 7b75dad..9336213 100644
--- a/fieldx_derive/src/codegen/sync/impl_async.rs
+++ b/fieldx_derive/src/codegen/sync/impl_async.rs
@@ -39,7 +39,7 @@ impl FXSyncImplDetails for FXAsyncImplementor {
         let lazy_builder_name = codegen.lazy_name(fctx)?;
         let builder_return = codegen.fallible_return_type(fctx, fctx.ty())?;
         Ok(
-            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + Send + '_>> {
+            quote_spanned![span=> fn #wrapper_name(&self) -> ::std::pin::Pin<::std::boxed::Box<dyn ::std::future::Future<Output = #builder_return> + ::std::marker::Send + '_>> {
                 ::std::boxed::Box::pin(
                     self.#lazy_builder_name()
                 )
diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index b9b12f4..e7864b5 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -486,7 +486,7 @@ impl FXFieldCtx {
 
     pub fn fallible_ok_return(&self, ret: TokenStream) -> TokenStream {
         if self.is_fallible() {
-            quote! {Ok(#ret)}
+            quote! {::std::result::Result::Ok(#ret)}
         }
         else {
             ret
-- 
2.43.0


From 8f17e73d6579437f68ef47edd5a3451637488736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:49 +0000
Subject: [PATCH 42/46] fix: structs declared by macros which are given
 attributes or their arguments did not compile

---
 fieldx_derive/src/lib.rs  |  2 +-
 fieldx_derive/src/util.rs | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/lib.rs b/fieldx_derive/src/lib.rs
index 86b49bf..79fda9e 100644
--- a/fieldx_derive/src/lib.rs
+++ b/fieldx_derive/src/lib.rs
@@ -615,5 +615,5 @@ pub fn fxstruct(args: proc_macro::TokenStream, input: proc_macro::TokenStream) -
         Err(e) => return darling::Error::from(e).write_errors().into(),
     };
 
-    codegen::FXRewriter::new(fx, args).rewrite().into()
+    util::unify_locals(codegen::FXRewriter::new(fx, args).rewrite(), input_ast.ident.span()).into()
 }
diff --git a/fieldx_derive/src/util.rs b/fieldx_derive/src/util.rs
index 21706ca..6d28c71 100644
--- a/fieldx_derive/src/util.rs
+++ b/fieldx_derive/src/util.rs
@@ -1,8 +1,41 @@
 pub(crate) mod args;
 use fieldx_aux::{FXOrig, FXTriggerHelper};
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
 use quote::quote;
 
+/// Names of parameters and variables of generated methods.
+const LOCALS: &[&str] = &["self", "value", "field_manual_value"];
+
+/// Makes all occurrences of a local name refer to the same variable. Spans of the arguments of `fxstruct` and `fieldx` attributes are
+/// used for generated code to report errors where they belong. But when a struct is declared by a macro, the attributes and their
+/// arguments may originate from different places, and local names with such spans do not match each other.
+pub(crate) fn unify_locals(tokens: TokenStream, at: Span) -> TokenStream {
+    fn is_local(tt: &TokenTree) -> bool {
+        match tt {
+            TokenTree::Group(group) => group.stream().into_iter().any(|tt| is_local(&tt)),
+            TokenTree::Ident(ident) => LOCALS.iter().any(|name| ident == name),
+            _ => false,
+        }
+    }
+
+    tokens
+        .into_iter()
+        .map(|mut tt| {
+            if is_local(&tt) {
+                if let TokenTree::Group(ref mut group) = tt {
+                    let span = group.span();
+                    *group = Group::new(group.delimiter(), unify_locals(group.stream(), at));
+                    group.set_span(span);
+                }
+                else {
+                    tt.set_span(tt.span().resolved_at(at));
+                }
+            }
+            tt
+        })
+        .collect()
+}
+
 #[allow(dead_code)]
 // Used by serde generation.
 pub fn derive_toks(traits: &[TokenStream]) -> TokenStream {
-- 
2.43.0


From 7f6ca4cf16193c9ffd19c7bf086c3d04f19918a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:16 +0000
Subject: [PATCH 43/46] fix: the macro panicked over serde defaults of fields
 and structs named by raw identifiers

---
 fieldx_derive/src/ctx/field.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fieldx_derive/src/ctx/field.rs b/fieldx_derive/src/ctx/field.rs
index e7864b5..8ca410f 100644
--- a/fieldx_derive/src/ctx/field.rs
+++ b/fieldx_derive/src/ctx/field.rs
@@ -14,6 +14,8 @@ use std::{
     cell::{OnceCell, RefCell},
     rc::Rc,
 };
+#[cfg(feature = "serde")]
+use syn::ext::IdentExt;
 
 // For FXFieldCtx
 macro_rules! helper_fn_ctx {
@@ -382,7 +384,7 @@ impl FXFieldCtx {
                 let ctx = self.codegen_ctx();
                 let field_ident = self.ident();
                 let struct_ident = ctx.input_ident();
-                Ok(ctx.unique_ident_pfx(&format!("__{}_{}_default", struct_ident, field_ident)))
+                Ok(ctx.unique_ident_pfx(&format!("__{}_{}_default", struct_ident.unraw(), field_ident.unraw())))
             })
             .as_ref()
             .map_err(
-- 
2.43.0


From 66782543e4bc4abdf56b1a5a68f53ed905ef90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:37 +0000
Subject: [PATCH 44/46] fix: helpers of a field named by raw identifier `gen`
 did not compile in crates of the 2024 edition

---
 fieldx_derive/src/util.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fieldx_derive/src/util.rs b/fieldx_derive/src/util.rs
index 6d28c71..360d83f 100644
--- a/fieldx_derive/src/util.rs
+++ b/fieldx_derive/src/util.rs
@@ -129,8 +129,15 @@ pub(crate) use TODO;
 
 /// Make an identifier of a string given by the user. Keywords become raw identifiers.
 pub(crate) fn str_to_ident(name: &str, span: Span) -> darling::Result<syn::Ident> {
-    let mut ident = syn::parse_str::<syn::Ident>(name)
-        .or_else(|_| syn::parse_str::<syn::Ident>(&format!("r#{}", name)))
+    let raw = || syn::parse_str::<syn::Ident>(&format!("r#{}", name));
+    // `syn` doesn't know that `gen` is a keyword since the 2024 edition.
+    let parsed = if name == "gen" {
+        raw()
+    }
+    else {
+        syn::parse_str::<syn::Ident>(name).or_else(|_| raw())
+    };
+    let mut ident = parsed
         .map_err(|_| darling::Error::custom(format!("'{}' is not a valid identifier", name)).with_span(&span))?;
     ident.set_span(span);
     Ok(ident)
-- 
2.43.0


From 611825f10e649d1c985d685b2e3509a4f0c1f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:00 +0000
Subject: [PATCH 45/46] fix: structs with no fields did not compile unless
 no_new or rc was given

The Default implementation was left out for them, but new and default rely on it.
---
 fieldx_derive/src/codegen.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/fieldx_derive/src/codegen.rs b/fieldx_derive/src/codegen.rs
index 5d40286..ba8ba32 100644
--- a/fieldx_derive/src/codegen.rs
+++ b/fieldx_derive/src/codegen.rs
@@ -290,19 +290,14 @@ impl FXRewriter {
         let ident = ctx.input().ident();
         let (impl_generics, type_generics, where_clause) = ctx.input().generics().split_for_impl();
 
-        if !defaults.is_empty() {
-            quote! [
-                impl #impl_generics ::std::default::Default for #ident #type_generics #where_clause {
-                    fn default() -> Self {
-                        Self { #defaults }
-                    }
+        // Even a struct with no fields needs it because `new` relies upon it.
+        quote! [
+            impl #impl_generics ::std::default::Default for #ident #type_generics #where_clause {
+                fn default() -> Self {
+                    Self { #defaults }
                 }
-            ]
-        }
-        else {
-            // It's already empty, what sense in allocating another copy?
-            defaults
-        }
+            }
+        ]
     }
 
     fn builder_struct_visibility(&self) -> TokenStream {
-- 
2.43.0


From e94b0f6a36c938d46e4e6827014a7dd726bbb5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:59 +0000
Subject: [PATCH 46/46] fix: cloning, comparing or formatting an async struct
 panicked within an async runtime

Blocking isn't allowed there, but it isn't needed either unless somebody is writing.
---
 fieldx/src/async.rs         | 5 +++++
 fieldx/src/async/fxlock.rs  | 6 +++---
 fieldx/src/async/fxproxy.rs | 6 +++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/fieldx/src/async.rs b/fieldx/src/async.rs
index d4f8595..92691f2 100644
--- a/fieldx/src/async.rs
+++ b/fieldx/src/async.rs
@@ -7,3 +7,8 @@ pub use fxproxy::{FXBuilderFallible, FXBuilderInfallible};
 pub use fxproxy::{FXProxyAsync, FXWrLockGuardAsync};
 // #[doc(hidden)]
 // pub use tokio::sync::{RwLock, RwLockMappedWriteGuard, RwLockReadGuard, RwLockWriteGuard};
+
+/// Locks for reading where there is no way to await. Blocking panics within an async runtime, hence it is the last resort.
+fn read_sync<T>(lock: &tokio::sync::RwLock<T>) -> tokio::sync::RwLockReadGuard<'_, T> {
+    lock.try_read().unwrap_or_else(|_| lock.blocking_read())
+}
diff --git a/fieldx/src/async/fxlock.rs b/fieldx/src/async/fxlock.rs
index 1321bba..31843e6 100644
--- a/fieldx/src/async/fxlock.rs
+++ b/fieldx/src/async/fxlock.rs
@@ -35,8 +35,8 @@ where
     T: PartialEq,
 {
     fn eq(&self, other: &Self) -> bool {
-        let myguard = self.0.blocking_read();
-        let otherguard = other.0.blocking_read();
+        let myguard = super::read_sync(&self.0);
+        let otherguard = super::read_sync(&other.0);
 
         myguard.eq(&otherguard)
     }
@@ -73,7 +73,7 @@ where
     T: Clone,
 {
     fn clone(&self) -> Self {
-        let vguard = self.0.blocking_read();
+        let vguard = super::read_sync(&self.0);
         Self(RwLock::new((*vguard).clone()))
     }
 }
diff --git a/fieldx/src/async/fxproxy.rs b/fieldx/src/async/fxproxy.rs
index 1206c29..0276d7f 100644
--- a/fieldx/src/async/fxproxy.rs
+++ b/fieldx/src/async/fxproxy.rs
@@ -106,7 +106,7 @@ where
     V: Debug,
 {
     fn fmt(&self, formatter: &mut Formatter<'_>) -> fmt::Result {
-        let vlock = self.value.blocking_read();
+        let vlock = super::read_sync(&self.value);
         formatter
             .debug_struct(any::type_name::<Self>())
             .field("value", &*vlock)
@@ -254,8 +254,8 @@ where
     B::Value: Clone,
 {
     fn clone(&self) -> Self {
-        let vguard = self.value.blocking_read();
-        let bguard = self.builder.blocking_read();
+        let vguard = super::read_sync(&self.value);
+        let bguard = super::read_sync(&self.builder);
         Self {
             value:   RwLock::new((*vguard).as_ref().cloned()),
             is_set:  AtomicBool::new(self.is_set()),
-- 
2.43.0

