From 949197f111f43fc6c013794580dbdabb7567509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 01/22] fix: allow exclamation mark inside identifiers

The KDL grammar excludes characters up to U+0020 from identifiers, not up
to U+0021: `foo!bar` is a valid identifier (`!foo` was accepted already).
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 46055cf..7a946c0 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -72,7 +72,7 @@ fn ws_char<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
 
 fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
     filter(|c| !matches!(c,
-        '\u{0000}'..='\u{0021}' |
+        '\u{0000}'..='\u{0020}' |
         '\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
-- 
2.43.0


From a96ef5b340db0cd6fa45623a5d771f57eadc79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 02/22] fix: don't allow byte order mark inside identifiers

U+FEFF is whitespace (see ws_char), so it can't be a part of an identifier.
---
 src/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7a946c0..4a5f0f6 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -77,7 +77,7 @@ fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -92,7 +92,7 @@ fn id_sans_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -107,7 +107,7 @@ fn id_sans_sign_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
-- 
2.43.0


From 7f8d91c0ba53b8d559c544c93c45446c471e4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 03/22] fix: require digits in the exponent of a number

`1e` and `1e_5` are not numbers in the KDL grammar.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 4a5f0f6..3c2d80e 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -337,7 +337,7 @@ fn decimal_number<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
         just('.').chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .chain_c(just('e').or(just('E'))
            .chain_c(just('-').or(just('+')).or_not())
-           .chain_c(digits(10)).or_not().flatten())
+           .chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .map(|v| {
         let is_decimal = v.iter().any(|c| matches!(c, '.'|'e'|'E'));
         let s: String = v.into_iter().filter(|c| c != &'_').collect();
-- 
2.43.0


From aa98dbb9dc3fcabaded73484fe8c9502ad6095e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 04/22] fix: allow identifiers that start with a keyword as
 property names

`node nullable=1` was rejected because `null` was recognized as a keyword
regardless of what follows it.
---
 src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index 3c2d80e..7d3aa56 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -320,6 +320,8 @@ fn keyword<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
             .map_err(|e: Error<S>| e.with_expected_token("false"))
             .to(Literal::Bool(false)),
     ))
+    // `nullable` is an identifier rather than a keyword followed by a garbage
+    .then_ignore(id_char().not().ignored().or(end()).rewind())
 }
 
 fn digit<S: Span>(radix: u32) -> impl Parser<char, char, Error=Error<S>> {
-- 
2.43.0


From 71152d59c7bc84b7c15a081455de3e97ed98838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:45 +0000
Subject: [PATCH 05/22] fix: recognize raw strings as node names and type names

`r"` and `r#"` were parsed as identifiers `r` and `r#` in the name
position, so raw string names were rejected. For the same reason unclosed raw
string arguments were reported as an unexpected identifier.

Identifier can't be followed by a double quote in KDL.
---
 src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7d3aa56..e068d48 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -266,6 +266,8 @@ fn bare_ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
         sign.repeated().exactly(1),
         id_sans_sign_dig().chain(id_char().repeated())
     ))
+    // `r"` and `r#"` start a raw string
+    .then_ignore(just('"').not().ignored().or(end()).rewind())
     .map(|v| v.into_iter().collect()).try_map(|s: String, span| {
         match &s[..] {
             "true" => Err(Error::Unexpected {
-- 
2.43.0


From aec05db3811cb316983052441d0e096a51bae328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 06/22] fix: exponential time on unclosed nested comments

Each `/*` inside of a comment could be parsed either as a nested comment or
as a text, and both variants were tried on each level of nesting if a comment
was not closed. Parse `/*` only as a nested comment, as the KDL grammar
requires.
---
 src/grammar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index e068d48..70043ff 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -128,8 +128,11 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     recursive::<_, _, _, _, Error<S>>(|comment| {
         choice((
             comment,
-            none_of('*').ignored(),
+            none_of("*/").ignored(),
             just('*').then_ignore(none_of('/').rewind()).ignored(),
+            // never reinterpret nested `/*` as a text, as trying both
+            // alternatives on each level takes exponential time
+            just('/').then_ignore(none_of('*').rewind()).ignored(),
         )).repeated().ignored()
         .delimited_by(begin_comment('*'), just("*/"))
     })
-- 
2.43.0


From 703bc810d31acf951331b88cdede25ea88322a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:53 +0000
Subject: [PATCH 07/22] fix: report unclosed comment when input ends right
 after `/*`

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 70043ff..0370892 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -138,7 +138,7 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     })
     .map_err_with_span(|e, span| {
         if matches!(&e, Error::Unexpected { found: TokenFormat::Eoi, .. }) &&
-           span.length() > 2
+           span.length() >= 2
         {
             e.merge(Error::Unclosed {
                 label: "comment",
-- 
2.43.0


From db78dae73c0ffbbe427048868a5ff5cf0927e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:58 +0000
Subject: [PATCH 08/22] fix: recognize `usize` and `isize` type annotations

These are builtin types (and are the only annotations accepted when decoding
usize and isize), but were never produced from the text.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 48c446a..62ad58e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -256,6 +256,8 @@ impl FromStr for BuiltinType {
             "i32" => Ok(I32),
             "u64" => Ok(U64),
             "i64" => Ok(I64),
+            "usize" => Ok(Usize),
+            "isize" => Ok(Isize),
             "f32" => Ok(F32),
             "f64" => Ok(F64),
             "base64" => Ok(Base64),
-- 
2.43.0


From da4986e76d2f1702543405f79ca6e7ccb87bff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 09/22] fix: report the expected kind of scalar correctly for
 numbers

Decoding of integer and floating point types expects integer and decimal
scalars respectively, not a string.
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 18bc0e4..09b3703 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -41,7 +41,7 @@ macro_rules! impl_integer {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Int, val));
                         Ok(0)
                     }
                 }
@@ -102,7 +102,7 @@ macro_rules! impl_float {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Decimal, val));
                         Ok(0.0)
                     }
                 }
-- 
2.43.0


From 4d6fd47d29212e6b6f1b2c2ed358be3871d6c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 10/22] fix: derive(Decode) for a newtype around non-optional
 type

The code generated for `struct Wrapper(Inner)` was always the one for
`struct Wrapper(Option<Inner>)`, so it didn't compile.
---
 derive/src/node.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5a3d381..760ca1c 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -157,6 +157,24 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+    let decode = if s.option {
+        quote! {
+            if #node.arguments.len() > 0 ||
+                #node.properties.len() > 0 ||
+                #node.children.is_some()
+            {
+                ::knuffel::Decode::decode_node(#node, #ctx)
+                    .map(Some)
+                    .map(#s_name)
+            } else {
+                Ok(#s_name(None))
+            }
+        }
+    } else {
+        quote! {
+            ::knuffel::Decode::decode_node(#node, #ctx).map(#s_name)
+        }
+    };
     Ok(quote! {
         impl<S: ::knuffel::traits::ErrorSpan>
             ::knuffel::Decode<S> for #s_name
@@ -165,16 +183,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
                            #ctx: &mut ::knuffel::decode::Context<S>)
                 -> Result<Self, ::knuffel::errors::DecodeError<S>>
             {
-                if #node.arguments.len() > 0 ||
-                    #node.properties.len() > 0 ||
-                    #node.children.is_some()
-                {
-                    ::knuffel::Decode::decode_node(#node, #ctx)
-                        .map(Some)
-                        .map(#s_name)
-                } else {
-                    Ok(#s_name(None))
-                }
+                #decode
             }
         }
     })
-- 
2.43.0


From 547f63410c008fac9b5afbd81a4e99554b0be164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 11/22] fix: derive(Decode) for tuple structs with only
 optional properties

Tuple index in the implementation of DecodePartial was emitted with a suffix
(`self.0usize`), which is a syntax error.
---
 derive/src/definition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 2f2d221..177794e 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -948,7 +948,10 @@ impl Field {
     }
     pub fn from_self(&self) -> TokenStream {
         match &self.attr {
-            AttrAccess::Indexed(idx) => quote!(self.#idx),
+            AttrAccess::Indexed(idx) => {
+                let idx = syn::Index::from(*idx);
+                quote!(self.#idx)
+            }
             AttrAccess::Named(name) => quote!(self.#name),
         }
     }
-- 
2.43.0


From 4e5a8d9f063435a9f519f2890259770b4d453a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:59 +0000
Subject: [PATCH 12/22] fix: derive(Decode) for structs with optional
 `children(name=..)`

Implementation of DecodePartial treated `Option<Vec<_>>` as a single optional
child, so a struct having only such fields did not compile.
---
 derive/src/node.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 760ca1c..8e948ac 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -635,7 +635,13 @@ fn decode_node(common: &Common, child_def: &Child, in_partial: bool,
     };
     let value = syn::Ident::new("value", Span::mixed_site());
     let assign = if matches!(child_def.mode, ChildMode::Multi) {
-        quote!(#dest.push(#value))
+        if in_partial {
+            // only optional ones can be in the partial
+            quote!(#dest.get_or_insert_with(::std::default::Default::default)
+                   .extend(::std::iter::once(#value)))
+        } else {
+            quote!(#dest.push(#value))
+        }
     } else {
         quote!(#dest = Some(#value))
     };
@@ -692,6 +698,11 @@ fn insert_child(s: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
                     Ok(true)
                 }
             });
+        } else if matches!(child_def.mode, ChildMode::Multi) {
+            let decode = decode_node(s, &child_def, true, node)?;
+            match_branches.push(quote! {
+                #child_name => #decode
+            });
         } else {
             let dup_err = format!("duplicate node `{}`, single node expected",
                                   child_name.escape_default());
-- 
2.43.0


From 23cfee21a952ce7e8f93300ed61059265eea877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 13/22] fix: allow flatten of both children and properties of a
 single field

The field marked with `flatten(child, property)` was initialized twice, so the
generated code didn't compile.
---
 derive/src/definition.rs | 8 +++++++-
 derive/src/node.rs       | 9 ++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 177794e..a86266e 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -603,6 +603,10 @@ impl Struct {
 
         Ok(bld.build())
     }
+    pub fn is_flatten_property(&self, field: &Field) -> bool {
+        self.properties.iter()
+            .any(|p| p.flatten && p.field.tmp_name == field.tmp_name)
+    }
     pub fn all_fields(&self) -> Vec<&Field> {
         let mut res = Vec::new();
         res.extend(self.spans.iter().map(|a| &a.field));
@@ -612,7 +616,9 @@ impl Struct {
         res.extend(self.var_args.iter().map(|a| &a.field));
         res.extend(self.properties.iter().map(|p| &p.field));
         res.extend(self.var_props.iter().map(|p| &p.field));
-        res.extend(self.children.iter().map(|c| &c.field));
+        // `flatten(child, property)` is already listed in properties
+        res.extend(self.children.iter().map(|c| &c.field)
+                   .filter(|f| !self.is_flatten_property(f)));
         res.extend(self.var_children.iter().map(|c| &c.field));
         res.extend(self.extra_fields.iter().map(|f| &f.field));
         return res;
diff --git a/derive/src/node.rs b/derive/src/node.rs
index 8e948ac..4708b4a 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -785,9 +785,12 @@ fn decode_children(s: &Common, children: &syn::Ident,
         let child_name = &child_def.name;
         match child_def.mode {
             ChildMode::Flatten => {
-                declare_empty.push(quote! {
-                    let mut #fld = ::std::default::Default::default();
-                });
+                // already declared by `decode_props` otherwise
+                if !s.object.is_flatten_property(&child_def.field) {
+                    declare_empty.push(quote! {
+                        let mut #fld = ::std::default::Default::default();
+                    });
+                }
                 match_branches.push(quote! {
                     _ if (
                         match ::knuffel::traits::DecodePartial
-- 
2.43.0


From 282f5be1c5536cf32516ec2ec9124d4f6e3e6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:56 +0000
Subject: [PATCH 14/22] fix: don't ignore type names of flag nodes, enum
 variants and unwrapped nodes

Type name is allowed only for the nodes that have a `type_name` field. The
check (and `span`, `node_name` and `type_name` fields) was implemented for
structs only, so in other places type name was silently lost.
---
 derive/src/node.rs     | 7 ++++++-
 derive/src/variants.rs | 9 ++++++++-
 src/decode.rs          | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 4708b4a..6808d46 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -159,7 +159,8 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
     let decode = if s.option {
         quote! {
-            if #node.arguments.len() > 0 ||
+            if #node.type_name.is_some() ||
+                #node.arguments.len() > 0 ||
                 #node.properties.len() > 0 ||
                 #node.children.is_some()
             {
@@ -194,6 +195,7 @@ pub(crate) fn decode_enum_item(s: &Common,
     -> syn::Result<TokenStream>
 {
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(s, node)?;
     let decode_args = decode_args(s, node)?;
     let decode_props = decode_props(s, node)?;
     let decode_children = decode_children(s, &children,
@@ -216,6 +218,7 @@ pub(crate) fn decode_enum_item(s: &Common,
         quote!{ #s_name(#(#assignments),*) }
     };
     Ok(quote! {
+        #decode_specials
         #decode_args
         #decode_props
         let #children = #node.children.as_ref()
@@ -596,6 +599,7 @@ fn unwrap_fn(parent: &Common,
 
     let node = syn::Ident::new("node", Span::mixed_site());
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(&common, &node)?;
     let decode_args = decode_args(&common, &node)?;
     let decode_props = decode_props(&common, &node)?;
     let decode_children = decode_children(&common, &children,
@@ -604,6 +608,7 @@ fn unwrap_fn(parent: &Common,
         let mut #func = |#node: &::knuffel::ast::SpannedNode<#span_ty>,
                          #ctx: &mut ::knuffel::decode::Context<#span_ty>|
         {
+            #decode_specials
             #decode_args
             #decode_props
             let #children = #node.children.as_ref()
diff --git a/derive/src/variants.rs b/derive/src/variants.rs
index 7b9e3b4..9ed277b 100644
--- a/derive/src/variants.rs
+++ b/derive/src/variants.rs
@@ -66,6 +66,12 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Unit => {
                 branches.push(quote! {
                     #name => {
+                        if let Some(type_name) = &#node.type_name {
+                            #ctx.emit_error(
+                                ::knuffel::errors::DecodeError::unexpected(
+                                    type_name, "type name",
+                                    "no type name expected for this node"));
+                        }
                         for arg in &#node.arguments {
                             #ctx.emit_error(
                                 ::knuffel::errors::DecodeError::unexpected(
@@ -102,7 +108,8 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Nested { option: true } => {
                 branches.push(quote! {
                     #name => {
-                        if #node.arguments.len() > 0 ||
+                        if #node.type_name.is_some() ||
+                            #node.arguments.len() > 0 ||
                             #node.properties.len() > 0 ||
                             #node.children.is_some()
                         {
diff --git a/src/decode.rs b/src/decode.rs
index 72193f1..0fff0c3 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -101,13 +101,19 @@ pub fn bytes<S: ErrorSpan>(value: &Value<S>, ctx: &mut Context<S>) -> Vec<u8> {
 
 /// Emits error(s) if node is not a flag node
 ///
-/// Flag node is a node that has no arguments, properties or children.
+/// Flag node is a node that has no type name, arguments, properties or
+/// children.
 ///
 /// Used internally by `#[knuffel(child)] x: bool,`. But can be used
 /// manually for implementing [`DecodeScalar`](crate::traits::DecodeScalar).
 pub fn check_flag_node<S: ErrorSpan>(
     node: &SpannedNode<S>, ctx: &mut Context<S>)
 {
+    if let Some(type_name) = &node.type_name {
+        ctx.emit_error(DecodeError::unexpected(
+                type_name, "type name",
+                "no type name expected for this node"));
+    }
     for arg in &node.arguments {
         ctx.emit_error(DecodeError::unexpected(
                 &arg.literal, "argument",
-- 
2.43.0


From 149dedb582ed393c8f371d1476607a972eb3e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 15/22] fix: derive(Decode) for an optional child with a
 default

`#[knuffel(child, default=Some(..))] x: Option<T>` expected the child to decode
into `Option<T>` rather than into `T`.
---
 derive/src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 6808d46..4eeff25 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -880,9 +880,15 @@ fn decode_children(s: &Common, children: &syn::Ident,
                     } else {
                         quote!(::std::default::Default::default())
                     };
-                    postprocess.push(quote! {
-                        let #fld = #fld.unwrap_or_else(|| #default);
-                    });
+                    if child_def.option && child_def.unwrap.is_none() {
+                        postprocess.push(quote! {
+                            let #fld = #fld.or_else(|| #default);
+                        });
+                    } else {
+                        postprocess.push(quote! {
+                            let #fld = #fld.unwrap_or_else(|| #default);
+                        });
+                    }
                 } else if !child_def.option {
                     if let Some(span) = &err_span {
                         postprocess.push(quote! {
-- 
2.43.0


From c35c6398196a3872ba4edbcdcd91d2638a36385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:23 +0000
Subject: [PATCH 16/22] fix: decoding of ast::Value inside of containers

Containers called `raw_decode`, which panics for `Value` (as its type name is
not available there), so e.g. `Option<Value<S>>` argument always panicked.
---
 src/containers.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/containers.rs b/src/containers.rs
index a09b023..263c78c 100644
--- a/src/containers.rs
+++ b/src/containers.rs
@@ -50,6 +50,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Box<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Box::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Box::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Arc<T> {
@@ -96,6 +101,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Arc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Arc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Arc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Rc<T> {
@@ -142,6 +152,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Rc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Rc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {
@@ -172,6 +187,17 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {
             _ => DecodeScalar::raw_decode(value, ctx).map(Some),
         }
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        match &*value.literal {
+            Literal::Null => {
+                T::type_check(&value.type_name, ctx);
+                Ok(None)
+            }
+            _ => DecodeScalar::decode(value, ctx).map(Some),
+        }
+    }
 }
 
 impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
@@ -192,4 +218,13 @@ impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
             value: decoded,
         })
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        let decoded = T::decode(value, ctx)?;
+        Ok(Spanned {
+            span: DecodeSpan::decode_span(&value.literal.span, ctx),
+            value: decoded,
+        })
+    }
 }
-- 
2.43.0


From 3e4e79ffb17313777b49db1808b0980a7af1b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:24 +0000
Subject: [PATCH 17/22] fix: respect span_type and generics when deriving
 Decode for newtypes

---
 derive/src/node.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 4eeff25..bebb5b5 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -157,6 +157,25 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+
+    let (_, type_gen, _) = s.generics.split_for_impl();
+    let mut common_generics = s.generics.clone();
+    let span_ty;
+    if let Some(ty) = s.trait_props.span_type.as_ref() {
+        span_ty = quote!(#ty);
+    } else {
+        if common_generics.params.is_empty() {
+            common_generics.lt_token = Some(Default::default());
+            common_generics.gt_token = Some(Default::default());
+        }
+        common_generics.params.push(syn::parse2(quote!(S)).unwrap());
+        span_ty = quote!(S);
+        common_generics.make_where_clause().predicates.push(
+            syn::parse2(quote!(S: ::knuffel::traits::ErrorSpan)).unwrap());
+    };
+    let trait_gen = quote!(<#span_ty>);
+    let (impl_gen, _, bounds) = common_generics.split_for_impl();
+
     let decode = if s.option {
         quote! {
             if #node.type_name.is_some() ||
@@ -177,12 +196,12 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         }
     };
     Ok(quote! {
-        impl<S: ::knuffel::traits::ErrorSpan>
-            ::knuffel::Decode<S> for #s_name
+        impl #impl_gen ::knuffel::Decode #trait_gen for #s_name #type_gen
+            #bounds
         {
-            fn decode_node(#node: &::knuffel::ast::SpannedNode<S>,
-                           #ctx: &mut ::knuffel::decode::Context<S>)
-                -> Result<Self, ::knuffel::errors::DecodeError<S>>
+            fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
+                           #ctx: &mut ::knuffel::decode::Context<#span_ty>)
+                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode
             }
-- 
2.43.0


From 1d0fee6c639b4d4d8badf5af35e651d427c2d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:58 +0000
Subject: [PATCH 18/22] fix: treat fields of unwrap() in tuple structs as
 positional

They were given internal names like `field0`, so that a property without
a name or a single child was accepted in unwrap() of a tuple struct (and
never matched), and errors named an argument that does not exist.
---
 derive/src/definition.rs | 7 -------
 derive/src/node.rs       | 9 +++++----
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index a86266e..0c5833c 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -929,13 +929,6 @@ impl Parse for FlattenItem {
 }
 
 impl Field {
-    pub fn new_named(name: &syn::Ident) -> Field {
-        Field {
-            span: name.span(),
-            attr: AttrAccess::Named(name.clone()),
-            tmp_name: name.clone(),
-        }
-    }
     fn new(field: &syn::Field, idx: usize) -> Field {
         field.ident.as_ref()
             .map(|id| Field {
diff --git a/derive/src/node.rs b/derive/src/node.rs
index bebb5b5..3aa5ebb 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -598,9 +598,10 @@ fn decode_props(s: &Common, node: &syn::Ident)
 }
 
 fn unwrap_fn(parent: &Common,
-             func: &syn::Ident, name: &syn::Ident, attrs: &FieldAttrs)
+             func: &syn::Ident, field: &Field, attrs: &FieldAttrs)
     -> syn::Result<TokenStream>
 {
+    let name = &field.tmp_name;
     let ctx = parent.ctx;
     let span_ty = parent.span_type;
     let mut bld = StructBuilder::new(
@@ -608,7 +609,7 @@ fn unwrap_fn(parent: &Common,
         parent.object.trait_props.clone(),
         parent.object.generics.clone(),
     );
-    bld.add_field(Field::new_named(name), false, false, attrs)?;
+    bld.add_field(field.clone(), false, false, attrs)?;
     let object = bld.build();
     let common = Common {
         object: &object,
@@ -652,7 +653,7 @@ fn decode_node(common: &Common, child_def: &Child, in_partial: bool,
     };
     let (init, func) = if let Some(unwrap) = &child_def.unwrap {
         let func = format_ident!("unwrap_{}", fld, span = Span::mixed_site());
-        let unwrap_fn = unwrap_fn(common, &func, fld, unwrap)?;
+        let unwrap_fn = unwrap_fn(common, &func, &child_def.field, unwrap)?;
         (unwrap_fn, quote!(#func))
     } else {
         (quote!(), quote!(::knuffel::Decode::decode_node))
@@ -957,7 +958,7 @@ fn decode_children(s: &Common, children: &syn::Ident,
 
         let (init, func) = if let Some(unwrap) = &var_children.unwrap {
             let func = format_ident!("unwrap_{}", fld, span = Span::mixed_site());
-            let unwrap_fn = unwrap_fn(s, &func, fld, unwrap)?;
+            let unwrap_fn = unwrap_fn(s, &func, &var_children.field, unwrap)?;
             (unwrap_fn, quote!(#func))
         } else {
             (quote!(), quote!(::knuffel::Decode::decode_node))
-- 
2.43.0


From 02736df51e84d5891894bf0b63a79710c0703e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:05 +0000
Subject: [PATCH 19/22] fix: type inference for unwrapped optional children in
 flattened structs

---
 derive/src/node.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 3aa5ebb..caad448 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -662,8 +662,16 @@ fn decode_node(common: &Common, child_def: &Child, in_partial: bool,
     let assign = if matches!(child_def.mode, ChildMode::Multi) {
         if in_partial {
             // only optional ones can be in the partial
-            quote!(#dest.get_or_insert_with(::std::default::Default::default)
-                   .extend(::std::iter::once(#value)))
+            quote!({
+                // `IntoIterator` determines the type of the value
+                fn push<C, T>(dest: &mut Option<C>, value: T)
+                    where C: Default + Extend<T> + IntoIterator<Item=T>
+                {
+                    dest.get_or_insert_with(::std::default::Default::default)
+                        .extend(::std::iter::once(value));
+                }
+                push(&mut #dest, #value)
+            })
         } else {
             quote!(#dest.push(#value))
         }
-- 
2.43.0


From 2a8908b4a850ea5d8849ab33ab3738ad8eea7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:34 +0000
Subject: [PATCH 20/22] fix: unwrapping of optional children with defaults in
 non-scalar modes

`#[knuffel(child, unwrap(..), default=Some(..))] x: Option<T>` did not compile
when the wrapped field is a child or `properties`, or is parsed by `str`.
---
 derive/src/node.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index caad448..85023eb 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -3,7 +3,8 @@ use quote::{format_ident, quote, ToTokens};
 use syn::ext::IdentExt;
 
 use crate::definition::{Struct, StructBuilder, ArgKind, FieldAttrs, DecodeMode};
-use crate::definition::{Child, Field, NewType, ExtraKind, ChildMode};
+use crate::definition::{Child, Field, FieldMode, NewType, ExtraKind};
+use crate::definition::ChildMode;
 
 
 pub(crate) struct Common<'a> {
@@ -18,6 +19,18 @@ fn child_can_partial(child: &Child) -> bool {
     child.option || matches!(child.mode, Bool | Flatten)
 }
 
+/// Scalars inside of `unwrap` decode into the `Option` itself, so that `null`
+/// overrides the default value
+fn decodes_option(child: &Child) -> bool {
+    match &child.unwrap {
+        Some(attrs) => matches!(attrs.mode,
+            Some(FieldMode::Argument) | Some(FieldMode::Arguments) |
+            Some(FieldMode::Property { .. }))
+            && !matches!(attrs.decode, Some((DecodeMode::Str, _))),
+        None => false,
+    }
+}
+
 pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
@@ -908,7 +921,7 @@ fn decode_children(s: &Common, children: &syn::Ident,
                     } else {
                         quote!(::std::default::Default::default())
                     };
-                    if child_def.option && child_def.unwrap.is_none() {
+                    if child_def.option && !decodes_option(child_def) {
                         postprocess.push(quote! {
                             let #fld = #fld.or_else(|| #default);
                         });
-- 
2.43.0


From 3ba12e2d77be352331ad18e5e4c4effc78b61fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:22 +0000
Subject: [PATCH 21/22] fix: only plain scalars unwrap into an Option with a
 default

`#[knuffel(child, unwrap(arguments), default=..)] x: Option<Vec<T>>` took a
null argument for the absence of the whole list, and unwrap(argument, bytes)
of types other than Vec<u8> did not compile with a default.
---
 derive/src/node.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 85023eb..360f5bc 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -24,9 +24,8 @@ fn child_can_partial(child: &Child) -> bool {
 fn decodes_option(child: &Child) -> bool {
     match &child.unwrap {
         Some(attrs) => matches!(attrs.mode,
-            Some(FieldMode::Argument) | Some(FieldMode::Arguments) |
-            Some(FieldMode::Property { .. }))
-            && !matches!(attrs.decode, Some((DecodeMode::Str, _))),
+            Some(FieldMode::Argument) | Some(FieldMode::Property { .. }))
+            && matches!(attrs.decode, None | Some((DecodeMode::Normal, _))),
         None => false,
     }
 }
-- 
2.43.0


From 31690824a50bc5cb6307cb241022107b4a98c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 22/22] fix: default expressions must not see the derive's own
 variables

---
 derive/src/definition.rs | 14 ++++++++++----
 derive/src/node.rs       |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 0c5833c..6832267 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -934,7 +934,11 @@ impl Field {
             .map(|id| Field {
                 span: field.span(),
                 attr: AttrAccess::Named(id.clone()),
-                tmp_name: id.clone(),
+                // default expressions must not see these variables
+                tmp_name: syn::Ident::new(
+                    &format!("field_{}", id.unraw()),
+                    Span::mixed_site().located_at(id.span()),
+                ),
             })
             .unwrap_or_else(|| Field {
                 span: field.span(),
@@ -954,8 +958,11 @@ impl Field {
             AttrAccess::Named(name) => quote!(self.#name),
         }
     }
-    pub fn is_indexed(&self) -> bool {
-        matches!(self.attr, AttrAccess::Indexed(_))
+    pub fn name(&self) -> Option<&syn::Ident> {
+        match &self.attr {
+            AttrAccess::Indexed(_) => None,
+            AttrAccess::Named(name) => Some(name),
+        }
     }
     pub fn as_index(&self) -> Option<usize> {
         match &self.attr {
@@ -966,7 +973,6 @@ impl Field {
     pub fn as_assign_pair(&self) -> Option<TokenStream> {
         match &self.attr {
             AttrAccess::Indexed(_) => None,
-            AttrAccess::Named(n) if n == &self.tmp_name => Some(quote!(#n)),
             AttrAccess::Named(n) => {
                 let tmp_name = &self.tmp_name;
                 Some(quote!(#n: #tmp_name))
diff --git a/derive/src/node.rs b/derive/src/node.rs
index 360f5bc..ce5e6e8 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -442,10 +442,11 @@ fn decode_args(s: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
                 });
             }
             (None, ArgKind::Value { option: false }) => {
-                let error = if arg.field.is_indexed() {
-                    "additional argument is required".into()
+                let error = if let Some(name) = arg.field.name() {
+                    format!("additional argument `{}` is required",
+                            name.unraw())
                 } else {
-                    format!("additional argument `{}` is required", fld.unraw())
+                    "additional argument is required".into()
                 };
                 decoder.push(quote! {
                     let #val =
-- 
2.43.0

