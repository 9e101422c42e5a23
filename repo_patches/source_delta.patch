From e86c32286046a817b4fa9ac5ce9a1f849d7ed84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 01/14] fix: recognise `usize` and `isize` type names

BuiltinType::as_str() names them but from_str() did not, so `(usize)1`
was rejected when decoding into an usize.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 48c446a..62ad58e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -256,6 +256,8 @@ impl FromStr for BuiltinType {
             "i32" => Ok(I32),
             "u64" => Ok(U64),
             "i64" => Ok(I64),
+            "usize" => Ok(Usize),
+            "isize" => Ok(Isize),
             "f32" => Ok(F32),
             "f64" => Ok(F64),
             "base64" => Ok(Base64),
-- 
2.43.0


From 4f254905f50c26a9c724693de6d1d200c5cdb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 02/14] fix: allow `!` in the middle of a bare identifier

id_char() excluded U+0021 while the rules for the first character and the
KDL specification exclude only U+0020 and below, so `foo!` was rejected.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 46055cf..7a946c0 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -72,7 +72,7 @@ fn ws_char<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
 
 fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
     filter(|c| !matches!(c,
-        '\u{0000}'..='\u{0021}' |
+        '\u{0000}'..='\u{0020}' |
         '\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
-- 
2.43.0


From 84657c8973d82107d7f55a9ce3d9195a8a12c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 03/14] fix: do not accept the byte order mark in bare
 identifiers

U+FEFF is whitespace, so `node<BOM>"x"` is a node with an argument, but the
identifier rules did not exclude it as they do all other whitespace.
---
 src/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7a946c0..4a5f0f6 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -77,7 +77,7 @@ fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -92,7 +92,7 @@ fn id_sans_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -107,7 +107,7 @@ fn id_sans_sign_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
-- 
2.43.0


From ad34fa6bcf759d9e3fb86726f6f88d36d186fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 04/14] fix: require a digit in the exponent of a decimal
 number

`1e` and `1e_` were accepted as numbers, although they are not, and yielded
a decimal literal whose text no floating point type can parse.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 4a5f0f6..3c2d80e 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -337,7 +337,7 @@ fn decimal_number<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
         just('.').chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .chain_c(just('e').or(just('E'))
            .chain_c(just('-').or(just('+')).or_not())
-           .chain_c(digits(10)).or_not().flatten())
+           .chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .map(|v| {
         let is_decimal = v.iter().any(|c| matches!(c, '.'|'e'|'E'));
         let s: String = v.into_iter().filter(|c| c != &'_').collect();
-- 
2.43.0


From dac0c58134145a2ab10057fa427f913017d3c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:29 +0000
Subject: [PATCH 05/14] fix: accept property names that start with a keyword

`node nullable=true` was rejected: `null` was taken as an argument, although
`nullable` is a valid identifier (and is accepted as a node or type name).
---
 src/grammar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index 3c2d80e..09d7719 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -426,6 +426,10 @@ fn prop_or_arg_inner<S: Span>()
 {
     use PropOrArg::*;
     choice((
+        // must precede a literal, because it might start with a keyword,
+        // i.e. `nullable=true`
+        spanned(bare_ident()).then(just('=').ignore_then(value()))
+            .map(|(name, value)| Prop(name, value)),
         spanned(literal()).then(just('=').ignore_then(value()).or_not())
             .try_map(|(name, value), _| {
                 let name_span = name.span;
-- 
2.43.0


From 428be0172642a95de075b0fcae9ab2233327914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 06/14] fix: count columns at the end of input as everywhere
 else

The position of the end of input was computed by the width of the last line
as a string: after a tab, a control character, an emoji sequence or a final
`\r\n` it differed from the end of the last character.
---
 src/span.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index 82d0f2c..a24989d 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -248,7 +248,11 @@ impl traits::sealed::Sealed for LineSpan {
             }
             caret_return = c == '\r';
         }
-        let column = unicode_width::UnicodeWidthStr::width(last_line);
+        // must match columns counted by the tracker
+        let column = last_line.chars().map(|c| match c {
+            '\t' => 8,
+            c => unicode_width::UnicodeWidthChar::width(c).unwrap_or(0),
+        }).sum();
         let eoi = LinePos {
             line,
             column,
-- 
2.43.0


From a277639c2377320aa047956776df36070f63e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 07/14] fix: name the expected kind when a number is required

Decoding anything but an integer into an integer (or anything but a decimal
into a float) was reported as "expected string scalar".
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 18bc0e4..09b3703 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -41,7 +41,7 @@ macro_rules! impl_integer {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Int, val));
                         Ok(0)
                     }
                 }
@@ -102,7 +102,7 @@ macro_rules! impl_float {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Decimal, val));
                         Ok(0.0)
                     }
                 }
-- 
2.43.0


From 57baf2dc200d52a01915532b01dc9772eff85814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 08/14] fix: derive Decode for tuple structs that can be
 flattened

The generated code contained `self.0usize` which does not compile.
---
 derive/src/definition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 2f2d221..177794e 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -948,7 +948,10 @@ impl Field {
     }
     pub fn from_self(&self) -> TokenStream {
         match &self.attr {
-            AttrAccess::Indexed(idx) => quote!(self.#idx),
+            AttrAccess::Indexed(idx) => {
+                let idx = syn::Index::from(*idx);
+                quote!(self.#idx)
+            }
             AttrAccess::Named(name) => quote!(self.#name),
         }
     }
-- 
2.43.0


From bdd290368333d16192e63c6a1079cd6eb399217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 09/14] fix: derive Decode for new type wrappers around a
 non-optional type

`struct Wrapper(Inner)` is documented, but the generated code assumed
`Wrapper(Option<Inner>)` and did not compile.
---
 derive/src/node.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5a3d381..37e4d32 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -157,6 +157,20 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+    if !s.option {
+        return Ok(quote! {
+            impl<S: ::knuffel::traits::ErrorSpan>
+                ::knuffel::Decode<S> for #s_name
+            {
+                fn decode_node(#node: &::knuffel::ast::SpannedNode<S>,
+                               #ctx: &mut ::knuffel::decode::Context<S>)
+                    -> Result<Self, ::knuffel::errors::DecodeError<S>>
+                {
+                    ::knuffel::Decode::decode_node(#node, #ctx).map(#s_name)
+                }
+            }
+        });
+    }
     Ok(quote! {
         impl<S: ::knuffel::traits::ErrorSpan>
             ::knuffel::Decode<S> for #s_name
-- 
2.43.0


From 8e60f470ec4f01a2259b286218372054fb41b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 10/14] fix: do not panic when decoding a raw value within a
 container

Option<Value>, Box<Value> and alike used the default decode() and so called
Value::raw_decode() which panics. Containers now decode the whole value by
the rules of the contained type.
---
 src/containers.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/containers.rs b/src/containers.rs
index a09b023..263c78c 100644
--- a/src/containers.rs
+++ b/src/containers.rs
@@ -50,6 +50,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Box<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Box::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Box::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Arc<T> {
@@ -96,6 +101,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Arc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Arc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Arc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Rc<T> {
@@ -142,6 +152,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Rc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Rc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {
@@ -172,6 +187,17 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {
             _ => DecodeScalar::raw_decode(value, ctx).map(Some),
         }
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        match &*value.literal {
+            Literal::Null => {
+                T::type_check(&value.type_name, ctx);
+                Ok(None)
+            }
+            _ => DecodeScalar::decode(value, ctx).map(Some),
+        }
+    }
 }
 
 impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
@@ -192,4 +218,13 @@ impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
             value: decoded,
         })
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        let decoded = T::decode(value, ctx)?;
+        Ok(Spanned {
+            span: DecodeSpan::decode_span(&value.literal.span, ctx),
+            value: decoded,
+        })
+    }
 }
-- 
2.43.0


From b0caf8443aef4c35bda19ed9afd592415d88b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:46 +0000
Subject: [PATCH 11/14] fix: accept raw strings as node and type names

---
 src/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 09d7719..69eb60b 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -295,8 +295,9 @@ fn ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     choice((
         // match -123 so `-` will not be treated as an ident by backtracking
         number().map(Err),
-        bare_ident().map(Ok),
+        // must precede a bare identifier, because of raw strings `r".."`
         string().map(Ok),
+        bare_ident().map(Ok),
     ))
     // when backtracking is not already possible,
     // throw error for numbers (mapped to `Result::Err`)
-- 
2.43.0


From 10e0ab7bf1bb6061c408d4f392f515f90cd5da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:45 +0000
Subject: [PATCH 12/14] fix: report the opening of a comment left open right at
 the end of the text

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 69eb60b..a8c3bf1 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -135,7 +135,7 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     })
     .map_err_with_span(|e, span| {
         if matches!(&e, Error::Unexpected { found: TokenFormat::Eoi, .. }) &&
-           span.length() > 2
+           span.length() > 1
         {
             e.merge(Error::Unclosed {
                 label: "comment",
-- 
2.43.0


From b1dd9e0f2b5336bf92ec27e9d3a7febf705ba415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:22 +0000
Subject: [PATCH 13/14] fix: a field with flatten(child, property) is declared
 and filled once

The documentation allows both on one field, but the generated code listed
the field twice in the constructed value and reset it before children.
---
 derive/src/definition.rs | 8 +++++++-
 derive/src/node.rs       | 8 +++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 177794e..3a14b24 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -603,6 +603,11 @@ impl Struct {
 
         Ok(bld.build())
     }
+    /// Field of `flatten(child, property)` is in both lists
+    pub fn is_flattened_property(&self, field: &Field) -> bool {
+        self.properties.iter()
+            .any(|p| p.flatten && p.field.tmp_name == field.tmp_name)
+    }
     pub fn all_fields(&self) -> Vec<&Field> {
         let mut res = Vec::new();
         res.extend(self.spans.iter().map(|a| &a.field));
@@ -612,7 +617,8 @@ impl Struct {
         res.extend(self.var_args.iter().map(|a| &a.field));
         res.extend(self.properties.iter().map(|p| &p.field));
         res.extend(self.var_props.iter().map(|p| &p.field));
-        res.extend(self.children.iter().map(|c| &c.field));
+        res.extend(self.children.iter().map(|c| &c.field)
+            .filter(|f| !self.is_flattened_property(f)));
         res.extend(self.var_children.iter().map(|c| &c.field));
         res.extend(self.extra_fields.iter().map(|f| &f.field));
         return res;
diff --git a/derive/src/node.rs b/derive/src/node.rs
index 37e4d32..aeb552d 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -779,9 +779,11 @@ fn decode_children(s: &Common, children: &syn::Ident,
         let child_name = &child_def.name;
         match child_def.mode {
             ChildMode::Flatten => {
-                declare_empty.push(quote! {
-                    let mut #fld = ::std::default::Default::default();
-                });
+                if !s.object.is_flattened_property(&child_def.field) {
+                    declare_empty.push(quote! {
+                        let mut #fld = ::std::default::Default::default();
+                    });
+                }
                 match_branches.push(quote! {
                     _ if (
                         match ::knuffel::traits::DecodePartial
-- 
2.43.0


From a92dd359d4e1ded715e716d19852fab4a90b8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:55 +0000
Subject: [PATCH 14/14] fix: derive for an optional list of children without
 other fields

The partial decoder pushed to the Option itself, so such a structure did
not compile, and would have taken the second child for a duplicate.
---
 derive/src/node.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index aeb552d..0b40d8d 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -640,7 +640,11 @@ fn decode_node(common: &Common, child_def: &Child, in_partial: bool,
     };
     let value = syn::Ident::new("value", Span::mixed_site());
     let assign = if matches!(child_def.mode, ChildMode::Multi) {
-        quote!(#dest.push(#value))
+        if in_partial && child_def.option {
+            quote!(#dest.get_or_insert_with(Vec::new).push(#value))
+        } else {
+            quote!(#dest.push(#value))
+        }
     } else {
         quote!(#dest = Some(#value))
     };
@@ -697,6 +701,11 @@ fn insert_child(s: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
                     Ok(true)
                 }
             });
+        } else if matches!(child_def.mode, ChildMode::Multi) {
+            let decode = decode_node(s, &child_def, true, node)?;
+            match_branches.push(quote! {
+                #child_name => #decode
+            });
         } else {
             let dup_err = format!("duplicate node `{}`, single node expected",
                                   child_name.escape_default());
-- 
2.43.0

