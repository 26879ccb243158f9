From fca7cb14a7881d79a62dcd2c20814598ee3381b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 01/18] fix: parse static mut declarations instead of taking
 mut as the name

---
 src/parse_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..a1367ad 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,7 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            consume_ident(tokens, "mut")
         }
         _ => None,
     };
-- 
2.43.0


From ce3919e6bb8b5a5b1814aba0defe1776a72975a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:44 +0000
Subject: [PATCH 02/18] fix: do not treat comparison and shift operators in
 initializers as angle brackets

---
 src/parse_impl.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index a1367ad..a8d37ad 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -46,11 +46,16 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // The initializer is an expression: `<` and `>` may be operators there, so
+    // only the first top-level `;` ends it.
+    let mut value_tokens = Vec::new();
+    loop {
+        match tokens.peek() {
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
+            Some(_) => value_tokens.push(tokens.next().unwrap()),
+            None => panic!("cannot parse const/static: expected `;`, found end of stream"),
+        }
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From 3ce34ec1c8fe98b502659a5265f96389124d84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:45 +0000
Subject: [PATCH 03/18] fix: keep the crate keyword of crate:: paths in tuple
 field types

---
 src/parse_utils.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..f8f1179 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -203,10 +203,21 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            let before_start = tokens.clone();
+            let crate_token = tokens.next().unwrap();
+            match tokens.peek() {
+                // Start of a `crate::path`, not a visibility
+                Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => {
+                    *tokens = before_start;
+                    None
+                }
+                _ => Some(VisMarker {
+                    tk_token1: crate_token,
+                    tk_token2: None,
+                }),
+            }
+        }
         _ => None,
     }
 }
-- 
2.43.0


From 755b3154331fffd59d4304325642b97a897aff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:46 +0000
Subject: [PATCH 04/18] fix: accept public tuple fields of parenthesised types

---
 src/parse_utils.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index f8f1179..28145b2 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,6 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
-use proc_macro2::{Delimiter, Ident, Punct, Spacing, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -184,6 +184,24 @@ pub(crate) fn consume_inner_attributes(tokens: &mut TokenIter) -> Vec<Attribute>
     consume_attributes_with_inner(tokens, true)
 }
 
+/// Whether the group is the `(crate)`, `(self)`, `(super)` or `(in path)` of a visibility,
+/// as opposed to the type of a tuple field, as in `struct Hello(pub (A, B));`.
+fn is_vis_restriction(group: &Group) -> bool {
+    if group.delimiter() != Delimiter::Parenthesis {
+        return false;
+    }
+    let mut tokens = group.stream().into_iter();
+    match tokens.next() {
+        Some(TokenTree::Ident(ident)) if ident == "in" => true,
+        Some(TokenTree::Ident(ident))
+            if ident == "crate" || ident == "self" || ident == "super" =>
+        {
+            tokens.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "pub" => {
@@ -191,12 +209,10 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 .next()
                 .expect("cannot parse declaration: expected token after 'pub'");
             match tokens.peek() {
-                Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
-                    Some(VisMarker {
-                        tk_token1: pub_token,
-                        tk_token2: Some(tokens.next().unwrap()),
-                    })
-                }
+                Some(TokenTree::Group(group)) if is_vis_restriction(group) => Some(VisMarker {
+                    tk_token1: pub_token,
+                    tk_token2: Some(tokens.next().unwrap()),
+                }),
                 _ => Some(VisMarker {
                     tk_token1: pub_token,
                     tk_token2: None,
-- 
2.43.0


From ef7d99623c9366e446579418251dbaf9786c93fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:19 +0000
Subject: [PATCH 05/18] fix: recognize path separators that are directly
 followed by punctuation

---
 src/parse_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 28145b2..7edc916 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -313,7 +313,8 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                // The second colon may itself be joint, eg in `::<`
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From e922fb4e68a2f243bf995211a290155fffcac19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:21 +0000
Subject: [PATCH 06/18] fix: do not split where-clause predicates at the :: of
 a path

---
 src/parse_type.rs    | 14 ++++----------
 src/parse_utils.rs   | 19 +++++++++++++++++++
 src/types_edition.rs |  9 +--------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..f24fd05 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,7 +1,8 @@
 use crate::error::Error;
 use crate::parse_utils::{
-    consume_colon2, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, consume_vis_marker, parse_any_ident, parse_punct,
+    consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
+    consume_predicate_left_side, consume_punct, consume_stuff_until, consume_vis_marker,
+    parse_any_ident, parse_punct,
 };
 use crate::types::{
     EnumVariant, EnumVariantValue, Fields, GenericArg, GenericArgList, GenericBound, GenericParam,
@@ -227,14 +228,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_predicate_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 7edc916..cee9cdb 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -325,6 +325,25 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     None
 }
 
+/// Consumes the left side of a where-clause predicate, up to the colon before its bound.
+///
+/// The `::` separators of paths such as `T::Item` are part of the left side.
+pub(crate) fn consume_predicate_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+    loop {
+        left_side.extend(consume_stuff_until(
+            tokens,
+            |token| matches!(token, TokenTree::Punct(punct) if punct.as_char() == ':'),
+            false,
+        ));
+
+        match consume_colon2(tokens) {
+            Some(colons) => left_side.extend(colons.map(TokenTree::Punct)),
+            None => return left_side,
+        }
+    }
+}
+
 /// Tries to parse a path expressions; returns `None` if not matching.
 pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     let mut segments = vec![];
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..881e169 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = crate::parse_utils::consume_predicate_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From 3a35c7d05070c7de6f6f51a1d04c3b586c7d7d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 07/18] fix: accept arrows in generic parameter bounds

---
 src/parse_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index cee9cdb..0d63141 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -264,6 +264,8 @@ pub(crate) fn consume_stuff_until(
                 bracket_count -= 1;
                 false
             }
+            // The `>` of an arrow is never a closing bracket nor a separator
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => false,
             Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
             Some(token) if predicate(token) && bracket_count == 0 => {
                 predicate_met = true;
-- 
2.43.0


From 4c5bf9189f36196c2c4690677c6e7f58fcb8f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:04 +0000
Subject: [PATCH 08/18] fix: parse self: Type receivers as typed parameters, as
 documented

---
 src/parse_fn.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..beb2271 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -84,27 +84,35 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let tk_mut = consume_ident(&mut tokens, "mut");
         let tk_self = consume_ident(&mut tokens, "self");
 
-        let param = if let Some(tk_self) = tk_self {
-            FnParam::Receiver(FnReceiverParam {
+        // `self: Type` is a typed parameter
+        let has_type = matches!(
+            tokens.peek(),
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ':'
+        );
+
+        let param = match tk_self {
+            Some(tk_self) if !has_type => FnParam::Receiver(FnReceiverParam {
                 attributes,
                 tk_ref,
                 lifetime,
                 tk_mut,
                 tk_self,
-            })
-        } else {
-            // TODO - handle non-ident argument names
-            let param_name = parse_any_ident(&mut tokens, "fn param name");
-            let tk_colon = parse_punct(&mut tokens, ':', "fn params");
-
-            let ty_tokens = consume_field_type(&mut tokens);
-            FnParam::Typed(FnTypedParam {
-                attributes,
-                tk_mut,
-                name: param_name,
-                tk_colon,
-                ty: TypeExpr { tokens: ty_tokens },
-            })
+            }),
+            tk_self => {
+                // TODO - handle non-ident argument names
+                let param_name =
+                    tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
+                let tk_colon = parse_punct(&mut tokens, ':', "fn params");
+
+                let ty_tokens = consume_field_type(&mut tokens);
+                FnParam::Typed(FnTypedParam {
+                    attributes,
+                    tk_mut,
+                    name: param_name,
+                    tk_colon,
+                    ty: TypeExpr { tokens: ty_tokens },
+                })
+            }
         };
 
         let comma = consume_comma(&mut tokens);
-- 
2.43.0


From cdbcc2d41a333557555a020f7898549efb0dd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:05 +0000
Subject: [PATCH 09/18] fix: reject reference patterns in fn params instead of
 dropping their tokens

---
 src/parse_fn.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index beb2271..966401a 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -100,6 +100,10 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             }),
             tk_self => {
                 // TODO - handle non-ident argument names
+                if tk_ref.is_some() || lifetime.is_some() {
+                    panic!("cannot parse fn params: patterns are not supported");
+                }
+
                 let param_name =
                     tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
                 let tk_colon = parse_punct(&mut tokens, ':', "fn params");
-- 
2.43.0


From 37ca36ec0886073f831f67b5321fe4e9828d857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:07 +0000
Subject: [PATCH 10/18] fix: reject tokens after the arguments of an attribute
 instead of dropping them

---
 src/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 0d63141..3792dcb 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -147,6 +147,10 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next();
+                if let Some(token) = attribute_tokens.next() {
+                    panic!("cannot parse attribute: expected `]`, found {:?}", token);
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From 36933583e2126a53672af518a936b7db9dcf7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:08 +0000
Subject: [PATCH 11/18] fix: reject visibilities on impl blocks and macros
 instead of dropping them

---
 src/parse.rs       |  6 +++++-
 src/parse_impl.rs  | 10 +++-------
 src/parse_utils.rs | 11 +++++++++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..225aef0 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -8,7 +8,9 @@ use crate::parse_type::{
     consume_generic_params, consume_item_name, consume_where_clause, parse_enum_variants,
     parse_named_fields, parse_tuple_fields,
 };
-use crate::parse_utils::{consume_outer_attributes, consume_punct, consume_vis_marker};
+use crate::parse_utils::{
+    consume_outer_attributes, consume_punct, consume_vis_marker, reject_vis_marker,
+};
 use crate::types::{Enum, Fields, GroupSpan, Item, Struct, Union};
 use proc_macro2::token_stream::IntoIter;
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
@@ -194,6 +196,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
+            reject_vis_marker(vis_marker);
             let impl_decl = parse_impl(tokens, attributes);
             Item::Impl(impl_decl)
         }
@@ -222,6 +225,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             )
         }
         Some(token) => {
+            reject_vis_marker(vis_marker);
             if let Some(macro_) = consume_macro(tokens, attributes) {
                 Item::Macro(macro_)
             } else {
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index a8d37ad..d941455 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -5,13 +5,13 @@ use crate::parse_type::{consume_bound, consume_generic_params, consume_where_cla
 use crate::parse_utils::{
     consume_ident, consume_inner_attributes, consume_outer_attributes, consume_punct,
     consume_stuff_until, consume_vis_marker, parse_any_ident, parse_ident, parse_punct,
+    reject_vis_marker,
 };
 use crate::types::{
     Attribute, Constant, GroupSpan, Impl, ImplMember, Item, Trait, TraitMember, TypeAlias,
     TypeExpr, ValueExpr, VisMarker,
 };
 use proc_macro2::{Delimiter, Group, TokenTree};
-use quote::ToTokens;
 use std::iter::Peekable;
 
 type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -155,6 +155,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
+                        reject_vis_marker(vis_marker);
                         let impl_decl = parse_impl(tokens, attributes);
                         Item::Impl(impl_decl)
                     }
@@ -173,12 +174,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                 }
             }
             ident => {
-                if let Some(vis_marker) = vis_marker {
-                    panic!(
-                        "unsupported visibility marker `{}`",
-                        vis_marker.to_token_stream()
-                    );
-                }
+                reject_vis_marker(vis_marker);
                 match consume_macro(tokens, attributes.clone()) {
                     Some(macro_) => Item::Macro(macro_),
                     None => panic!("unsupported {} item `{}`", context, ident),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 3792dcb..d300bce 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,7 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
 use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
+use quote::ToTokens;
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -242,6 +243,16 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     }
 }
 
+/// Panics if a visibility was found in front of an item that cannot have one.
+pub(crate) fn reject_vis_marker(vis_marker: Option<VisMarker>) {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+}
+
 // Consumes tokens until a separator is reached *unless* the
 // separator in between angle brackets
 // eg consume_stuff_until(..., |token| token == ',') will consume all
-- 
2.43.0


From ab704380a317fff36531346a541b735568d318b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:09 +0000
Subject: [PATCH 12/18] fix: do not swallow a semicolon that follows a struct
 with named fields

---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 225aef0..746dec8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -123,7 +123,11 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 where_clause = consume_where_clause(tokens);
             }
 
-            let semicolon = consume_punct(tokens, ';');
+            // A semicolon after named fields is not part of the struct
+            let semicolon = match struct_fields {
+                Fields::Named(_) => None,
+                Fields::Unit | Fields::Tuple(_) => consume_punct(tokens, ';'),
+            };
 
             Item::Struct(Struct {
                 attributes,
-- 
2.43.0


From daf803a68dd294a2cf32690fa6b26c6f2aed362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:11 +0000
Subject: [PATCH 13/18] fix: do not drop a stray comma in a generic argument
 list

---
 src/parse_type.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index f24fd05..b0f6b60 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -193,13 +193,14 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
             |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
             false,
         );
-        let comma = consume_comma(tokens);
 
         // Exit when end reached
         if arg_tokens.is_empty() {
             break;
         }
 
+        let comma = consume_comma(tokens);
+
         generic_args.push(parse_generic_arg(arg_tokens), comma);
     }
 
-- 
2.43.0


From e5853539436a92b4dfaf5b4da7115f99e7045c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 14/18] fix: do not take the for of a higher-ranked self type
 for a trait impl

---
 src/parse_impl.rs | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index d941455..6ef7708 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -227,20 +227,41 @@ pub(crate) fn parse_impl_body(
     (GroupSpan::new(&token_group), inner_attributes, body_items)
 }
 
+/// Whether the next tokens are `for<'a ...` or `for<>`.
+fn is_higher_ranked_for(tokens: &TokenIter) -> bool {
+    let mut tokens = tokens.clone();
+    if consume_ident(&mut tokens, "for").is_none() || consume_punct(&mut tokens, '<').is_none() {
+        return false;
+    }
+    matches!(
+        tokens.peek(),
+        Some(TokenTree::Punct(punct)) if punct.as_char() == '\'' || punct.as_char() == '>'
+    )
+}
+
 pub(crate) fn parse_impl(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Impl {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_impl = parse_ident(tokens, "impl", "impl block");
 
     let impl_generic_params = consume_generic_params(tokens);
-    let trait_or_self_ty = consume_stuff_until(
-        tokens,
-        |tk| match tk {
-            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
-            TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
-            _ => false,
-        },
-        true,
-    );
+    let mut trait_or_self_ty = Vec::new();
+    loop {
+        trait_or_self_ty.extend(consume_stuff_until(
+            tokens,
+            |tk| match tk {
+                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
+                TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
+                _ => false,
+            },
+            true,
+        ));
+
+        // The `for<'a>` of a higher-ranked type is not the `for` of a trait impl
+        if !is_higher_ranked_for(tokens) {
+            break;
+        }
+        trait_or_self_ty.push(tokens.next().unwrap());
+    }
 
     let (tk_for, trait_ty, self_ty) = if let Some(tk_for) = consume_ident(tokens, "for") {
         let self_ty = consume_stuff_until(
-- 
2.43.0


From 4c5036781b2ef51556486d37bd56c30129f44c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:15 +0000
Subject: [PATCH 15/18] fix: refuse enum variants and receivers not followed by
 a comma

A missing comma was silently added: `enum E { A {} B }` was read as
`enum E { A {}, B }`, and `fn f(self x: u8)` as `fn f(self, x: u8)`.
---
 src/parse_fn.rs    |  6 +++---
 src/parse_type.rs  |  8 ++++----
 src/parse_utils.rs | 14 ++++++++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 966401a..fff4416 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -3,8 +3,8 @@ use crate::parse_type::{
     consume_where_clause,
 };
 use crate::parse_utils::{
-    consume_any_ident, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, parse_any_ident, parse_punct,
+    consume_any_ident, consume_ident, consume_outer_attributes, consume_punct, consume_stuff_until,
+    parse_any_ident, parse_comma_or_end, parse_punct,
 };
 use crate::punctuated::Punctuated;
 use crate::types::{
@@ -119,7 +119,7 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             }
         };
 
-        let comma = consume_comma(&mut tokens);
+        let comma = parse_comma_or_end(&mut tokens, "fn params");
 
         fields.push(param, comma);
     }
diff --git a/src/parse_type.rs b/src/parse_type.rs
index b0f6b60..19d31c3 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -2,7 +2,7 @@ use crate::error::Error;
 use crate::parse_utils::{
     consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
     consume_predicate_left_side, consume_punct, consume_stuff_until, consume_vis_marker,
-    parse_any_ident, parse_punct,
+    parse_any_ident, parse_comma_or_end, parse_punct,
 };
 use crate::types::{
     EnumVariant, EnumVariantValue, Fields, GenericArg, GenericArgList, GenericBound, GenericParam,
@@ -419,9 +419,9 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
             token => panic!("cannot parse enum variant: unexpected token {:?}", token),
         };
 
-        let enum_discriminant = consume_enum_discriminant(&mut tokens);
+        let enum_discriminant = consume_enum_discriminant(&mut tokens)?;
 
-        let comma = consume_comma(&mut tokens);
+        let comma = parse_comma_or_end(&mut tokens, "enum variant");
 
         variants.push(
             EnumVariant {
@@ -429,7 +429,7 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
                 vis_marker,
                 name: variant_name,
                 fields: contents,
-                value: enum_discriminant?,
+                value: enum_discriminant,
             },
             comma,
         );
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index d300bce..13248b4 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -320,6 +320,20 @@ pub(crate) fn consume_comma(tokens: &mut TokenIter) -> Option<Punct> {
     consume_punct(tokens, ',')
 }
 
+/// Parse the `,` after an element of a list, which only the last element may lack.
+pub(crate) fn parse_comma_or_end(tokens: &mut TokenIter, panic_context: &str) -> Option<Punct> {
+    let comma = consume_comma(tokens);
+    match tokens.peek() {
+        Some(token) if comma.is_none() => {
+            panic!(
+                "cannot parse {}: expected ',', found token {:?}",
+                panic_context, token
+            )
+        }
+        _ => comma,
+    }
+}
+
 /// Parse `::`, as in path separator or turbofish.
 ///
 /// Does not advance `tokens` if the double colon is not found.
-- 
2.43.0


From be343de0296357da837025541de5b45d5f3a29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:17 +0000
Subject: [PATCH 16/18] fix: do not take `dyn ::Trait` for a path

---
 src/parse_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 13248b4..2ec6024 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -385,7 +385,8 @@ pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     loop {
         // path elem
         let ident = match tokens.next() {
-            Some(TokenTree::Ident(ident)) => ident.clone(),
+            // `dyn ::Trait` and `impl ::Trait` are not paths
+            Some(TokenTree::Ident(ident)) if ident != "dyn" && ident != "impl" => ident.clone(),
             _ => return None, // end of tokens OR not a path
         };
 
-- 
2.43.0


From a3df8377e8b59490196cc2fe96fe8ab5306016df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:38 +0000
Subject: [PATCH 17/18] fix: the inferred type `_` is not a path

---
 src/parse_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 2ec6024..5ca74ed 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -385,8 +385,10 @@ pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     loop {
         // path elem
         let ident = match tokens.next() {
-            // `dyn ::Trait` and `impl ::Trait` are not paths
-            Some(TokenTree::Ident(ident)) if ident != "dyn" && ident != "impl" => ident.clone(),
+            // `dyn ::Trait`, `impl ::Trait` and `_` are not paths
+            Some(TokenTree::Ident(ident)) if ident != "dyn" && ident != "impl" && ident != "_" => {
+                ident
+            }
             _ => return None, // end of tokens OR not a path
         };
 
-- 
2.43.0


From 710fdfe8698c966d018bd1f4085db004ecbc44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:17 +0000
Subject: [PATCH 18/18] fix: do not take `for<'a> ::Trait<'a>` for a path

---
 src/parse_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 5ca74ed..aee0564 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -385,8 +385,10 @@ pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     loop {
         // path elem
         let ident = match tokens.next() {
-            // `dyn ::Trait`, `impl ::Trait` and `_` are not paths
-            Some(TokenTree::Ident(ident)) if ident != "dyn" && ident != "impl" && ident != "_" => {
+            // `dyn ::Trait`, `impl ::Trait`, `for<'a> ::Trait<'a>` and `_` are not paths
+            Some(TokenTree::Ident(ident))
+                if ident != "dyn" && ident != "impl" && ident != "for" && ident != "_" =>
+            {
                 ident
             }
             _ => return None, // end of tokens OR not a path
-- 
2.43.0

