From f2cadc3258a99206cc5ed9c4224e3777010abfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 01/19] fix: drop the `r#` prefix from variant names

A variant named with a raw identifier (`r#type`) was shown as `r#type`
(`r_type` in snake_case) and only parsed from that text.
---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..f0f58ba 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -617,7 +617,7 @@ impl DisplayStyle {
             }
         }
 
-        let s = ident.to_string();
+        let s = ident.unraw().to_string();
         let (line_head, word_head, normal, sep) = match self {
             DisplayStyle::None => {
                 return s;
-- 
2.43.0


From 160c5150decef1bf4feefca4036dce335cf8fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 02/19] fix: resolve `{x}` in a field format relative to that
 field in FromStr

Display shows member `x` of the field; FromStr bound the text to the
sibling field `x`, failed with "field not found", or recursed forever when
the member had the name of the field.
---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7086605..e0bc043 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,7 +212,7 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
-                    if keys.len() == 1 {
+                    if keys.len() == 1 && !matches!(vb, VarBase::Field { .. }) {
                         self.push_field(vb, &keys[0], format.span)?;
                         continue;
                     }
-- 
2.43.0


From ec2e6e8020a38643a1f81fe039afe7049c2294db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 03/19] fix: accept raw identifier fields with `#[from_str(new
 = ...)]`

The derive panicked for fields such as `r#type`.
---
 parse-display-derive/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index f0f58ba..811f5ea 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1131,10 +1131,9 @@ impl FieldKey {
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-            Self::Named(s) => parse_str(s),
-            Self::Unnamed(idx) => parse_str(&format!("_{idx}")),
+            Self::Named(s) => format_ident!("r#{s}"),
+            Self::Unnamed(idx) => format_ident!("_{idx}"),
         }
-        .unwrap()
     }
 }
 impl std::fmt::Display for FieldKey {
-- 
2.43.0


From c65dc436a38d9ee17872f35e2686e62ecd3373b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 04/19] fix: bind the variables of `#[from_str(new = ...)]`
 after all conversions

A field named `c` shadowed the captures the later fields are read from, so
the generated code did not compile.
---
 parse-display-derive/src/parser_builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index e0bc043..ec8426f 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -350,19 +350,19 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let code = if let Some(new_expr) = &self.new_expr {
-            let mut code = TokenStream::new();
+            let mut vars = Vec::new();
+            let mut exprs = Vec::new();
             for (key, field) in &self.fields {
-                let expr = field.build_field_init_expr(&names, key, self.span)?;
-                let var = key.new_arg_var();
-                code.extend(quote! { let #var = #expr; });
+                exprs.push(field.build_field_init_expr(&names, key, self.span)?);
+                vars.push(key.new_arg_var());
             }
             let crate_path = self.crate_path;
-            code.extend(quote! {
+            quote! {
+                let (#(#vars,)*) = (#(#exprs,)*);
                 if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
                     return ::core::result::Result::Ok(value);
                 }
-            });
-            code
+            }
         } else if self.use_default {
             let mut setters = Vec::new();
             for (key, field) in &self.fields {
-- 
2.43.0


From eab135f3c3c8bb05f97337f4761fa75f91cba1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 05/19] fix: use the inner type for `with` and `regex_infer` on
 opt fields in FromStr

Display formats `Some(T)` with `DisplayFormat<T>`, but FromStr required
`FromStrFormat<Option<T>>` (or `Option<T>: FromStrRegex`) and then did not
type-check, so these documented combinations never compiled.
---
 parse-display-derive/src/parser_builder.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index ec8426f..e9d73ee 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -14,7 +14,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -226,8 +226,9 @@ impl<'a> ParserBuilder<'a> {
                             match vb {
                                 VarBase::Struct { .. } => {}
                                 VarBase::Variant { .. } => {}
-                                VarBase::Field { field, key, .. } => {
-                                    self.with.push(With::new(c, key, with_expr, &field.ty));
+                                VarBase::Field { key, .. } => {
+                                    let ty = field_of(&mut self.fields, key, format.span)?.value_ty();
+                                    self.with.push(With::new(c, key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
                                     self.with.push(With::new(c, key, with_expr, ty));
@@ -511,6 +512,14 @@ impl<'a> FieldEntry<'a> {
             crate_path,
         })
     }
+    fn value_ty(&self) -> &'a Type {
+        let ty = &self.source.ty;
+        if self.hattrs.opt.value() {
+            get_option_element(ty).unwrap_or(ty)
+        } else {
+            ty
+        }
+    }
     #[allow(clippy::collapsible_else_if)]
     fn set_capture(&mut self, keys: &[FieldKey], capture_next: &mut usize) -> String {
         let idx = if keys.is_empty() {
@@ -695,7 +704,7 @@ fn str_expr_to_parse_capture_expr(
     crate_path: &Path,
 ) -> TokenStream {
     if let Some(with) = &field.hattrs.with {
-        let ty = &field.source.ty;
+        let ty = field.value_ty();
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-- 
2.43.0


From 31ced0cb9fb2f8ecb9d53bbc307316fa11858618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 06/19] fix: apply the placeholder's format parameters to opt
 fields

`{a:>5}` ignored the width for an opt field.
---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 811f5ea..12d47a7 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -933,7 +933,7 @@ impl VarBase<'_> {
                     #crate_path::helpers::OptionFormatHelper::<#inner_ty, _> {
                         value: &#in_expr,
                         f: |#ident : &#inner_ty, #formatter_ident : &mut ::core::fmt::Formatter| {
-                             ::core::write!(#formatter_ident, "{}", #out_expr)
+                             ::core::fmt::Display::fmt(&#out_expr, #formatter_ident)
                         },
                         none_value: "",
                     }
-- 
2.43.0


From b58b8f98351c7336f944444b05e00c65a8a2dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 07/19] fix: let the built-in FromStrRegex patterns match every
 parseable number

`+5`, `infinity`, `+nan` and `-nan` are parsed by the standard FromStr
impls but were not matched by the patterns.
---
 parse-display/src/from_str_regex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display/src/from_str_regex.rs b/parse-display/src/from_str_regex.rs
index c7a3c12..906cf42 100644
--- a/parse-display/src/from_str_regex.rs
+++ b/parse-display/src/from_str_regex.rs
@@ -47,7 +47,7 @@ impl FromStrRegex for bool {
 }
 
 fn regex_uint() -> String {
-    r"[0-9]+".into()
+    r"\+?[0-9]+".into()
 }
 impl FromStrRegex for u8 {
     fn from_str_regex() -> String {
@@ -116,7 +116,7 @@ impl FromStrRegex for NonZero<usize> {
 }
 
 fn regex_sint() -> String {
-    r"-?[0-9]+".into()
+    r"[+-]?[0-9]+".into()
 }
 
 impl FromStrRegex for i8 {
@@ -185,7 +185,7 @@ impl FromStrRegex for NonZero<isize> {
 }
 
 fn regex_f() -> String {
-    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?inf|nan)".into()
+    r"(?i:[+-]?([0-9]+\.?|[0-9]*\.[0-9]+)(e[+-]?[0-9]+)?|[+-]?(inf(inity)?|nan))".into()
 }
 impl FromStrRegex for f32 {
     fn from_str_regex() -> String {
-- 
2.43.0


From 75aea8c88882d6037a8e0d21740a5726932a24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 08/19] fix: separate the field from its member in nested parse
 errors

The error for `{x.a}` named the field `xa`.
---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index e9d73ee..fa16218 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -578,7 +578,7 @@ impl<'a> FieldEntry<'a> {
             }
         }
         for (keys, idx) in &self.deep_captures {
-            let field_name = key.to_string() + &join(keys, ".");
+            let field_name = key.to_string() + "." + &join(keys, ".");
             let expr = build_parse_capture_expr(
                 &field_name,
                 capture_index(*idx, names),
-- 
2.43.0


From a0683224ed175aa3412454a497519cddb5953d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 09/19] fix: let `#[derive(Display)]` compile for an enum
 without variants

---
 parse-display-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 12d47a7..169f5a8 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -149,9 +149,14 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         arms.push(make_arm(&hattrs, variant, &mut bounds, &cx)?);
     }
     let trait_path = parse_quote!(::core::fmt::Display);
+    let value = if arms.is_empty() {
+        quote!(*self)
+    } else {
+        quote!(self)
+    };
     let contents = quote! {
         fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-            match self {
+            match #value {
                 #(#arms)*
             }
         }
-- 
2.43.0


From 684090553395bb6184401363109e8dfcd0d9f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 10/19] fix: accept a newline as the fill character

`format!` accepts `{:\n>5}`; the derive reported an unknown format trait.
---
 parse-display-derive/src/format_syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/format_syntax.rs b/parse-display-derive/src/format_syntax.rs
index 226b7f5..0f80f7b 100644
--- a/parse-display-derive/src/format_syntax.rs
+++ b/parse-display-derive/src/format_syntax.rs
@@ -96,7 +96,7 @@ impl<'a> FormatSpec<'a> {
     pub fn parse(s: &'a str) -> std::result::Result<Self, FormatParseError> {
         let re = regex!(
             "^\
-             ((?<fill>.)?\
+             ((?<fill>(?s:.))?\
              (?<align>[<>^]))??\
              (?<sign>[+-])?\
              (?<is_alternate>#)?\
-- 
2.43.0


From a374462463e088c0b652938d83c77aec809ee721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 11/19] fix: let FromStrRegex of an enum that parses nothing
 match nothing

Without variants (or with all ignored) the pattern was empty, which matches
the empty string.
---
 parse-display-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 169f5a8..a07c3c8 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -281,7 +281,9 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         },
     ));
     if cfg!(feature = "std") {
-        let body = if regex_args.is_empty() {
+        let body = if regex_fmts.is_empty() {
+            quote! { r"[^\s\S]".into() }
+        } else if regex_args.is_empty() {
             let fmts = regex_fmts
                 .into_iter()
                 .map(|s| escape(&s.unwrap()))
-- 
2.43.0


From 066f592a2b9b984c79a674e3ae6ad2a0103a7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 12/19] fix: recognize non-ASCII field names as capture names
 in regexes

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index fa16218..bcb5152 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -126,7 +126,7 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let regex_number = regex!("^[0-9]+$");
-        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
+        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[\w.]*)>");
 
         let text = s.value();
         let text_debug = regex_capture.replace_all(&text, |c: &Captures| {
-- 
2.43.0


From 0b388b719bb2d64f1319e230a9ba9985ae98eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 13/19] fix: accept nested tuple members as capture names in
 regexes

---
 parse-display-derive/src/parser_builder.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index bcb5152..12ef85f 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -125,7 +125,7 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]+$");
+        let regex_number = regex!("^[0-9]+");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[\w.]*)>");
 
         let text = s.value();
@@ -135,12 +135,8 @@ impl<'a> ParserBuilder<'a> {
                 return c[0].to_owned();
             }
             let key = &c[IDX_KEY];
-            let key = if key.is_empty() {
-                "self".into()
-            } else {
-                key.replace('.', "_")
-            };
-            let key = regex_number.replace(&key, "_$0");
+            let key = if key.is_empty() { "self" } else { key };
+            let key = regex_number.replace(key, "_$0");
             format!("{esc}(?<{key}>")
         });
         if let Err(e) = regex_syntax::ast::parse::Parser::new().parse(&text_debug) {
-- 
2.43.0


From 1159d07b8c039f81aa1bd064eee9f1c52a277631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 14/19] fix: derive FromStr for enums with a variant named
 `Err`

---
 parse-display-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index a07c3c8..da9cd9b 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -192,7 +192,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -272,7 +272,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
-- 
2.43.0


From 76c23b68944a1014208f5deb2a02165a50cc6253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 15/19] fix: keep the hygiene of generated tokens when the
 format comes from a macro

---
 parse-display-derive/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index da9cd9b..8c680ea 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -756,7 +756,7 @@ impl DisplayFormat {
                         let crate_path = &cx.crate_path;
                         expr = quote!(#crate_path::helpers::fmt_pointer(#expr));
                     }
-                    expr = set_span(expr, self.span);
+                    expr = set_location(expr, self.span);
                     format_args.push(expr);
                 }
             }
@@ -1188,6 +1188,14 @@ fn trim_raw(s: &str) -> &str {
     }
 }
 
+fn set_location(ts: TokenStream, span: Span) -> TokenStream {
+    ts.into_iter()
+        .map(|mut ts| {
+            ts.set_span(ts.span().located_at(span));
+            ts
+        })
+        .collect()
+}
 fn set_span(ts: TokenStream, span: Span) -> TokenStream {
     ts.into_iter()
         .map(|mut ts| {
-- 
2.43.0


From 28ff6a7dd228c3803a2902e4a35855295a824f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 16/19] fix: do not depend on the names `String`, `Into` and
 `format` around the derived type

---
 parse-display-derive/src/lib.rs            | 12 ++++++------
 parse-display-derive/src/parser_builder.rs |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 8c680ea..d8fda40 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -206,7 +206,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -282,14 +282,14 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
     ));
     if cfg!(feature = "std") {
         let body = if regex_fmts.is_empty() {
-            quote! { r"[^\s\S]".into() }
+            quote! { ::core::convert::From::from(r"[^\s\S]") }
         } else if regex_args.is_empty() {
             let fmts = regex_fmts
                 .into_iter()
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { #s.into() }
+            quote! { ::core::convert::From::from(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -299,7 +299,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 })
                 .collect::<Vec<_>>();
             let fmt = fmts.join("|");
-            quote! { format!(#fmt, #(#regex_args,)*) }
+            quote! { ::std::format!(#fmt, #(#regex_args,)*) }
         };
 
         ts.extend(impl_trait(
@@ -307,7 +307,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -968,7 +968,7 @@ impl VarBase<'_> {
     ) -> Result<TokenStream> {
         if let Some(format) = format {
             let args = format.format_args(self, with, bounds, cx)?;
-            Ok(quote! { format_args!(#args) })
+            Ok(quote! { ::core::format_args!(#args) })
         } else {
             self.format_arg("", format_spec, span, with, bounds, cx)
         }
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 12ef85f..cba61a6 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -302,7 +302,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { #s.into() })
+                Ok(quote! { ::core::convert::From::from(#s) })
             }
         }
     }
-- 
2.43.0


From 20e2fdb8d5b6712098ad5dac78373ddcdbaf7b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 17/19] fix: reject `{}` in a struct format when only FromStr
 is derived

---
 parse-display-derive/src/parser_builder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index cba61a6..0a8ffb4 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -202,10 +202,16 @@ impl<'a> ParserBuilder<'a> {
                 DisplayFormatPart::EscapedEndBracket => self.push_str("}"),
                 DisplayFormatPart::Var { arg, .. } => {
                     let keys = FieldKey::from_str_deep(arg);
-                    if let VarBase::Variant { variant, style, .. } = vb {
-                        if keys.is_empty() {
-                            self.push_str(&style.apply(&variant.ident));
-                            continue;
+                    if keys.is_empty() {
+                        match vb {
+                            VarBase::Struct { .. } => {
+                                bail!(format.span, "{{}} is not allowed in struct format.")
+                            }
+                            VarBase::Variant { variant, style, .. } => {
+                                self.push_str(&style.apply(&variant.ident));
+                                continue;
+                            }
+                            VarBase::Field { .. } | VarBase::FieldSome { .. } => {}
                         }
                     }
                     if keys.len() == 1 && !matches!(vb, VarBase::Field { .. }) {
-- 
2.43.0


From 915cefe247d237ead1fbcc9e9706d482589e5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 18/19] fix: names of generated locals do not collide with
 items used by the derived type

---
 parse-display-derive/src/lib.rs            | 14 +++----
 parse-display-derive/src/parser_builder.rs | 44 +++++++++++-----------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index d8fda40..494a709 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -68,7 +68,7 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
     };
     let write = format
         .format_args(&vb, &None, &mut bounds, &cx)?
-        .build_write(quote!(f))?;
+        .build_write(quote!(__f))?;
     let trait_path = parse_quote!(::core::fmt::Display);
     let wheres = bounds.build_wheres(&trait_path);
     impl_trait_result(
@@ -76,7 +76,7 @@ fn derive_display_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<T
         &trait_path,
         &wheres,
         quote! {
-            fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+            fn fmt(&self, __f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
                 #write
             }
         },
@@ -130,7 +130,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
                 &mut bounds.child(hattrs_variant.bound_display),
                 cx,
             )?
-            .build_write(quote!(f))?;
+            .build_write(quote!(__f))?;
         Ok(quote! {
             & Self::#variant_ident #fields => {
                 #write
@@ -155,7 +155,7 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         quote!(self)
     };
     let contents = quote! {
-        fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
+        fn fmt(&self, __f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
             match #value {
                 #(#arms)*
             }
@@ -192,7 +192,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(__s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -255,7 +255,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         quote! {}
     } else {
         quote! {
-            match s {
+            match __s {
                 #(#arms,)*
                 _ => { }
             }
@@ -272,7 +272,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
+            fn from_str(__s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 0a8ffb4..a83ef5d 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -316,15 +316,15 @@ impl<'a> ParserBuilder<'a> {
     pub fn build_parse_variant_code(&self, constructor: Path) -> Result<ParseVariantCode> {
         match &self.parse_format {
             ParseFormat::Hirs(_) => {
-                let fn_ident: Ident = format_ident!("parse_variant");
+                let fn_ident: Ident = format_ident!("__parse_variant");
                 let crate_path = self.crate_path;
                 let code = self.build_from_str_body(constructor)?;
                 let code = quote! {
-                    let #fn_ident = |s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
+                    let #fn_ident = |__s: &str| -> ::core::result::Result<Self, #crate_path::ParseError> {
                         #code
                     };
-                    if let ::core::result::Result::Ok(value) = #fn_ident(s) {
-                        return ::core::result::Result::Ok(value);
+                    if let ::core::result::Result::Ok(__value) = #fn_ident(__s) {
+                        return ::core::result::Result::Ok(__value);
                     }
                 };
                 Ok(ParseVariantCode::Statement(code))
@@ -362,20 +362,20 @@ impl<'a> ParserBuilder<'a> {
             let crate_path = self.crate_path;
             quote! {
                 let (#(#vars,)*) = (#(#exprs,)*);
-                if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
-                    return ::core::result::Result::Ok(value);
+                if let ::core::result::Result::Ok(__value) = #crate_path::IntoResult::into_result(#new_expr) {
+                    return ::core::result::Result::Ok(__value);
                 }
             }
         } else if self.use_default {
             let mut setters = Vec::new();
             for (key, field) in &self.fields {
-                let left_expr = quote! { value . #key };
+                let left_expr = quote! { __value . #key };
                 setters.push(field.build_setters(&names, key, left_expr, true)?);
             }
             quote! {
-                let mut value = <Self as ::core::default::Default>::default();
+                let mut __value = <Self as ::core::default::Default>::default();
                 #(#setters)*
-                return ::core::result::Result::Ok(value);
+                return ::core::result::Result::Ok(__value);
             }
         } else {
             let ps = match &self.source {
@@ -422,7 +422,7 @@ impl<'a> ParserBuilder<'a> {
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
             debug_asserts.push(quote_spanned! {expr.span()=>
-                ::core::debug_assert_eq!(&p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
+                ::core::debug_assert_eq!(&__p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
         Ok(ParserInit {
@@ -440,17 +440,17 @@ impl<'a> ParserBuilder<'a> {
                 } = self.build_parser_init(&hirs_with_start_end(hirs))?;
                 let crate_path = self.crate_path;
                 quote! {
-                    static PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
+                    static __PARSER: ::std::sync::OnceLock<#crate_path::helpers::Parser> = ::std::sync::OnceLock::new();
                     #[allow(clippy::trivial_regex)]
-                    let p = PARSER.get_or_init(|| #expr);
+                    let __p = __PARSER.get_or_init(|| #expr);
                     #(#debug_asserts)*
-                    if let ::core::option::Option::Some(c) = p.re.captures(&s) {
+                    if let ::core::option::Option::Some(__c) = __p.re.captures(&__s) {
                          #code
                     }
                 }
             }
             ParseFormat::String(s) => quote! {
-                if s == #s {
+                if __s == #s {
                     #code
                 }
             },
@@ -600,13 +600,13 @@ impl<'a> FieldEntry<'a> {
     ) -> Result<TokenStream> {
         if let Some(mut expr) = self.build_expr(names, key)? {
             if !self.deep_captures.is_empty() {
-                let setters = self.build_setters(names, key, quote!(field_value), false)?;
+                let setters = self.build_setters(names, key, quote!(__field_value), false)?;
                 let ty = &self.source.ty;
                 expr = quote! {
                     {
-                        let mut field_value : #ty = #expr;
+                        let mut __field_value : #ty = #expr;
                         #setters
-                        field_value
+                        __field_value
                     }
                 };
             }
@@ -682,22 +682,22 @@ fn build_parse_capture_expr(
     let msg = format!("field `{field_name}` parse failed.");
     let e = if let Some(field) = field {
         if field.hattrs.opt.value() {
-            let e = str_expr_to_parse_capture_expr(quote!(s), field, crate_path);
+            let e = str_expr_to_parse_capture_expr(quote!(__s), field, crate_path);
             quote! {
-                c.get(#capture_index).map(|m| m.as_str()).map(|s| #e).transpose()
+                __c.get(#capture_index).map(|__m| __m.as_str()).map(|__s| #e).transpose()
             }
         } else {
             str_expr_to_parse_capture_expr(
-                quote!(c.get(#capture_index).map_or("", |m| m.as_str())),
+                quote!(__c.get(#capture_index).map_or("", |__m| __m.as_str())),
                 field,
                 crate_path,
             )
         }
     } else {
-        quote!(c.get(#capture_index).map_or("", |m| m.as_str()).parse())
+        quote!(__c.get(#capture_index).map_or("", |__m| __m.as_str()).parse())
     };
     Ok(quote! {
-        #e.map_err(|e| #crate_path::ParseError::with_message(#msg))?
+        #e.map_err(|_| #crate_path::ParseError::with_message(#msg))?
     })
 }
 fn str_expr_to_parse_capture_expr(
-- 
2.43.0


From a40c9c0f15a762048ad0a1a3fcc66f0f654e356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:08 +0000
Subject: [PATCH 19/19] fix: let from_str(with) win over display(with) in
 whatever order they are written

---
 parse-display-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 494a709..71526b7 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -429,6 +429,9 @@ impl HelperAttributes {
             if a.path().is_ident("display") {
                 hattrs.set_display_args(a.parse_args()?)?;
             }
+        }
+        // `#[from_str(with = ...)]` takes precedence over `#[display(with = ...)]` wherever it is written.
+        for a in attrs {
             if use_from_str && a.path().is_ident("from_str") {
                 hattrs.push_from_str_warning_spans(a)?;
                 hattrs.set_from_str_args(a.parse_args()?);
-- 
2.43.0

