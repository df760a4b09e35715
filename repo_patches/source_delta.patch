From 525d54f63c70c6983f6bf7cb060f9345761093ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 1/7] fix: recognize `name=value` when the value starts with a
 punctuation

`#[attr(x=-1)]` was rejected (or treated as an unnamed argument) while
`#[attr(x = -1)]` was accepted, because `=` directly followed by another
punctuation character is a joint punct. Only `==` and `=>` are different
operators.
---
 structmeta/src/helpers.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/structmeta/src/helpers.rs b/structmeta/src/helpers.rs
index 57c9e2b..f213d53 100644
--- a/structmeta/src/helpers.rs
+++ b/structmeta/src/helpers.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Spacing, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream};
 use syn::{
     MacroDelimiter, Result, Token, braced, bracketed,
     ext::IdentExt,
@@ -104,11 +104,7 @@ pub fn try_parse_name(
     Ok(None)
 }
 fn peek_eq_op(input: ParseStream) -> bool {
-    if let Some((p, _)) = input.cursor().punct() {
-        p.as_char() == '=' && p.spacing() == Spacing::Alone
-    } else {
-        false
-    }
+    input.peek(Token![=]) && !input.peek(Token![==]) && !input.peek(Token![=>])
 }
 fn name_index_of(
     names: &[&str],
-- 
2.43.0


From 6f388b9f843fc410acbe2b0ff120253721f56b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 2/7] fix: report an unopened closing delimiter in
 derive(ToTokens) as an error

`#[to_tokens(")")]` without an opening delimiter made the derive panic on
an internal unwrap instead of reporting the mismatch as derive(Parse) does.
---
 structmeta-derive/src/to_tokens.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index 483bfa8..dc21e9f 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -185,6 +185,9 @@ fn code_from_fields(fields: &Fields) -> Result<TokenStream> {
                             })));
                             field_to_tokens = false;
                         } else if let Some(delimiter) = delimiter_from_close_char(c) {
+                            if scopes.len() == 1 {
+                                bail!(token.span(), "mismatched closing delimiter `{}`.", c);
+                            }
                             let scope = scopes.pop().unwrap();
                             scopes
                                 .last_mut()
-- 
2.43.0


From 0423b507c5549e39b68a522dffe598c6a2bd9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 3/7] fix: report an unnamed Option<Vec<_>> parameter as an
 error

It made derive(StructMeta) panic on an internal unreachable!().
---
 structmeta-derive/src/struct_meta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index f7bfffd..bbf8bcd 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -315,6 +315,12 @@ impl<'a> Param<'a> {
                 is_option,
             })
         } else if let NamedParamType::Value { ty, is_vec } = ty {
+            if is_option && is_vec {
+                bail!(
+                    info.span(),
+                    "`Option<Vec<_>>` cannot be used as unnamed parameter."
+                )
+            }
             Param::Unnamed(UnnamedParam {
                 info,
                 ty,
-- 
2.43.0


From ba5c2b92954e864bac847551f1e1681da0a8359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 4/7] fix: NameArgs parameters where a module named structmeta
 is in scope

The generated code named the crate by a relative path in this one place, so
that a local module of the same name was taken for it.
---
 structmeta-derive/src/struct_meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structmeta-derive/src/struct_meta.rs b/structmeta-derive/src/struct_meta.rs
index bbf8bcd..abf146e 100644
--- a/structmeta-derive/src/struct_meta.rs
+++ b/structmeta-derive/src/struct_meta.rs
@@ -750,7 +750,7 @@ impl<'a> NamedParamType<'a> {
                         args
                     }
                 };
-                quote!(structmeta::NameArgs { name_span : span, args: #args })
+                quote!(::structmeta::NameArgs { name_span : span, args: #args })
             }
         }
     }
-- 
2.43.0


From 4c208de90dfd873f3efabe35db3ece26fafccc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 5/7] fix: derive(ToTokens) on an enum without variants

A match on a reference needs arms even when the referenced type has no values.
---
 structmeta-derive/src/to_tokens.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structmeta-derive/src/to_tokens.rs b/structmeta-derive/src/to_tokens.rs
index dc21e9f..28034be 100644
--- a/structmeta-derive/src/to_tokens.rs
+++ b/structmeta-derive/src/to_tokens.rs
@@ -57,6 +57,10 @@ fn code_from_enum(data: &DataEnum) -> Result<TokenStream> {
             }
         });
     }
+    if arms.is_empty() {
+        // A reference to an uninhabited type still needs arms.
+        return Ok(quote!(match *self {}));
+    }
     Ok(quote! {
         match self {
             #(#arms)*
-- 
2.43.0


From ddd296c0f4fd477b4c97ffba245b38cf9be33cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 6/7] fix: derive(Parse) no longer needs a crate named syn in
 scope

The generated code imported syn::ext by a path relative to the place of the
definition, where syn may be something else.
---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index c540311..94294ad 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -46,7 +46,7 @@ fn code_from_struct(data: &DataStruct) -> Result<TokenStream> {
 fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let mut ts = TokenStream::new();
     ts.extend(quote!(
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
     ));
     let mut input_is_forked = false;
     let mut input_is_moved = false;
@@ -268,7 +268,7 @@ fn code_from_fields(
         Fields::Unit => quote!(),
     };
     Ok(quote! {
-        use syn::ext::*;
+        use ::structmeta::helpers::exports::syn::ext::*;
         #ts
         Ok(#self_path #init)
     })
-- 
2.43.0


From d94b87b869a6aba7bef344e98da0504b7b94c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 7/7] fix: derive(Parse) on generic enums

The alternatives were parsed by nested functions, which cannot use the generic
parameters (or Self) of the implementation around them. Closures can.
---
 structmeta-derive/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structmeta-derive/src/parse.rs b/structmeta-derive/src/parse.rs
index 94294ad..963f94c 100644
--- a/structmeta-derive/src/parse.rs
+++ b/structmeta-derive/src/parse.rs
@@ -63,9 +63,9 @@ fn code_from_enum(self_ident: &Ident, data: &DataEnum) -> Result<TokenStream> {
         )?;
         let fn_def = quote! {
             #[allow(non_snake_case)]
-            fn #fn_ident(input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>) -> ::structmeta::helpers::exports::syn::Result<#self_ident> {
+            let #fn_ident = |input: ::structmeta::helpers::exports::syn::parse::ParseStream<'_>| -> ::structmeta::helpers::exports::syn::Result<Self> {
                 #fn_expr
-            }
+            };
         };
         let code = if peeks.is_empty() {
             if is_last && !input_is_forked {
-- 
2.43.0

