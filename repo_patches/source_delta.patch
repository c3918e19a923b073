From c2edbf8ae275094738c7f285052e73432b4d4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 01/47] fix: parse integers down to i128::MIN and floats with
 more than 38 digits in a part

The magnitude of a number was parsed as an i128 before its sign was applied,
so i128::MIN (which prints fine) could not be read back, and every part of a
float went through i128 too, so 1e39 printed in full could not be parsed.
---
 src/v2_parser.rs | 146 +++++++++++++----------------------------------
 1 file changed, 41 insertions(+), 105 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3551732..91131cf 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -5,7 +5,6 @@ use std::{
 
 use miette::{Severity, SourceSpan};
 
-use num_traits::CheckedMul;
 use winnow::{
     LocatingSlice,
     ascii::{Caseless, digit1, hex_digit1, oct_digit1},
@@ -164,20 +163,6 @@ impl<'a> FromExternalError<Input<'a>, ParseFloatError> for KdlParseError {
     }
 }
 
-struct NegativeUnsignedError;
-
-impl<'a> FromExternalError<Input<'a>, NegativeUnsignedError> for KdlParseError {
-    fn from_external_error(_input: &Input<'a>, _e: NegativeUnsignedError) -> Self {
-        Self {
-            span: None,
-            message: Some("Tried to parse a negative number as an unsigned integer".into()),
-            label: Some("negative unsigned int".into()),
-            help: None,
-            severity: Some(Severity::Error),
-        }
-    }
-}
-
 impl<I: Stream + Location> FromRecoverableError<I, Self> for KdlParseError {
     #[inline]
     fn from_recoverable_error(
@@ -1766,27 +1751,27 @@ fn float<T: ParseFloat>(input: &mut Input<'_>) -> PResult<T> {
     (
         alt((
             (
-                decimal::<i128>,
+                (signum, udecimal),
                 opt(preceded(
                     '.',
                     cut_err(
-                        udecimal::<i128>.context(
+                        udecimal.context(
                             cx().msg("Non-digit character found after the '.' of a float"),
                         ),
                     ),
                 )),
                 Caseless("e"),
                 opt(one_of(['-', '+'])),
-                cut_err(udecimal::<i128>.context(
+                cut_err(udecimal.context(
                     cx().msg("Non-digit character found in the exponent part of a float").hlp("Floats with exponent parts should look like '2.0e123', or '43.3E-4'."),
                 )),
             )
                 .take(),
             (
-                decimal::<i128>,
+                (signum, udecimal),
                 '.',
                 cut_err(
-                    udecimal::<i128>
+                    udecimal
                         .context(cx().msg("Non-digit character found after the '.' of a float")),
                 ),
             )
@@ -1841,16 +1826,10 @@ fn integer_value(input: &mut Input<'_>) -> PResult<KdlValue> {
 }
 
 /// Non-float decimal
-fn decimal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn decimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    udecimal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
+    udecimal
+        .try_map(|digits| signed_from_str_radix(positive, &digits, 10))
         .parse_next(input)
 }
 
@@ -1864,7 +1843,7 @@ fn decimal_test() {
 }
 
 /// `integer := digit (digit | '_')*`
-fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn udecimal(input: &mut Input<'_>) -> PResult<String> {
     (
         digit1,
         repeat(
@@ -1872,27 +1851,19 @@ fn udecimal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
             alt(("_", take_while(1.., AsChar::is_dec_digit).take())),
         ),
     )
-        .try_map(|(l, r): (&str, Vec<&str>)| {
-            T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 10)
-        })
+        .map(|(l, r): (&str, Vec<&str>)| format!("{l}{}", str::replace(&r.join(""), "_", "")))
         .parse_next(input)
 }
 
 /// `hex := sign? '0x' hex-digit (hex-digit | '_')*`
-fn hex<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn hex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uhex::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
+    uhex.try_map(|digits| signed_from_str_radix(positive, &digits, 16))
+        .context(cx().lbl("hexadecimal"))
         .parse_next(input)
 }
 
-fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uhex(input: &mut Input<'_>) -> PResult<String> {
     alt(("0x", "0X")).parse_next(input)?;
     cut_err((
         hex_digit1,
@@ -1901,9 +1872,7 @@ fn uhex<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
             alt(("_", take_while(1.., AsChar::is_hex_digit).take())),
         ),
     ))
-    .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 16)
-    })
+    .map(|(l, r): (&str, Vec<&str>)| format!("{l}{}", str::replace(&r.join(""), "_", "")))
     .context(cx().lbl("hexadecimal"))
     .parse_next(input)
 }
@@ -1935,20 +1904,15 @@ fn test_hex() {
 }
 
 /// `octal := sign? '0o' [0-7] [0-7_]*`
-fn octal<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn octal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    uoctal::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
+    uoctal
+        .try_map(|digits| signed_from_str_radix(positive, &digits, 8))
+        .context(cx().lbl("octal"))
         .parse_next(input)
 }
 
-fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn uoctal(input: &mut Input<'_>) -> PResult<String> {
     alt(("0o", "0O")).parse_next(input)?;
     cut_err((
         oct_digit1,
@@ -1957,9 +1921,7 @@ fn uoctal<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
             alt(("_", take_while(1.., AsChar::is_oct_digit).take())),
         ),
     ))
-    .try_map(|(l, r): (&str, Vec<&str>)| {
-        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 8)
-    })
+    .map(|(l, r): (&str, Vec<&str>)| format!("{l}{}", str::replace(&r.join(""), "_", "")))
     .context(cx().lbl("octal"))
     .parse_next(input)
 }
@@ -1974,28 +1936,19 @@ fn test_octal() {
 }
 
 /// `binary := sign? '0b' ('0' | '1') ('0' | '1' | '_')*`
-fn binary<T: FromStrRadix + MaybeNegatable>(input: &mut Input<'_>) -> PResult<T> {
+fn binary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
     let positive = signum.parse_next(input)?;
-    ubinary::<T>
-        .try_map(|x| {
-            if positive {
-                Ok(x)
-            } else {
-                x.negated().ok_or(NegativeUnsignedError)
-            }
-        })
+    ubinary
+        .try_map(|digits| signed_from_str_radix(positive, &digits, 2))
+        .context(cx().lbl("binary"))
         .parse_next(input)
 }
 
-fn ubinary<T: FromStrRadix>(input: &mut Input<'_>) -> PResult<T> {
+fn ubinary(input: &mut Input<'_>) -> PResult<String> {
     alt(("0b", "0B")).parse_next(input)?;
-    cut_err(
-        (alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).try_map(
-            move |(x, xs): (&str, Vec<&str>)| {
-                T::from_str_radix(&format!("{x}{}", str::replace(&xs.join(""), "_", "")), 2)
-            },
-        ),
-    )
+    cut_err((alt(("0", "1")), repeat(0.., alt(("0", "1", "_")))).map(
+        move |(x, xs): (&str, Vec<&str>)| format!("{x}{}", str::replace(&xs.join(""), "_", "")),
+    ))
     .context(cx().lbl("binary"))
     .parse_next(input)
 }
@@ -2049,32 +2002,18 @@ impl_from_str_radix!(
     i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize
 );
 
-trait MaybeNegatable: CheckedMul {
-    fn negated(&self) -> Option<Self>;
-}
-
-macro_rules! impl_negatable_signed {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    Some(self * -1)
-                }
-            }
-        )*
-    };
-}
-
-macro_rules! impl_negatable_unsigned {
-    ($($t:ty),*) => {
-        $(
-            impl MaybeNegatable for $t {
-                fn negated(&self) -> Option<Self> {
-                    None
-                }
-            }
-        )*
-    };
+/// Parses `digits` as the magnitude of a signed number. The sign has to be known
+/// up front: the magnitude of the smallest value of a type doesn't fit that type.
+fn signed_from_str_radix<T: FromStrRadix>(
+    positive: bool,
+    digits: &str,
+    radix: u32,
+) -> Result<T, ParseIntError> {
+    if positive {
+        T::from_str_radix(digits, radix)
+    } else {
+        T::from_str_radix(&format!("-{digits}"), radix)
+    }
 }
 
 trait ParseFloat {
@@ -2094,9 +2033,6 @@ impl ParseFloat for f64 {
     }
 }
 
-impl_negatable_signed!(i8, i16, i32, i64, i128, isize);
-impl_negatable_unsigned!(u8, u16, u32, u64, u128, usize);
-
 #[cfg(test)]
 mod failure_tests {
     use miette::Severity;
-- 
2.43.0


From 1248c5ef4e5f6ca4bc0eb0172324575579ee2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 02/47] fix: accept ';' after a slashdashed node that something
 follows

'/-a; b' is two nodes, the first of them commented out, but the parser never
consumed the terminator of a slashdashed node and so rejected it.
---
 src/v2_parser.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 91131cf..0e2fd16 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -265,7 +265,7 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let mut leading = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -278,7 +278,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     .parse_next(input)?;
     let _span = span_from_checkpoint(input, &_start);
     opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let trailing = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -312,7 +312,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space.void(), (slashdash, base_node).void())))
+    let leading = repeat(0.., alt((line_space, slashdashed_node)))
         .map(|()| ())
         .take()
         .parse_next(input)?;
@@ -323,6 +323,17 @@ fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
     Ok(nd)
 }
 
+/// A slashdashed node goes up to its own terminator, just like any other node.
+fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
+    (
+        slashdash,
+        base_node,
+        alt((node_terminator, eof.void(), peek("}").void())),
+    )
+        .void()
+        .parse_next(input)
+}
+
 fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     trace("children closing check", not(alt(("}".void(), eof.void())))).parse_next(input)?;
     let _start = input.checkpoint();
-- 
2.43.0


From 34dd7ead6a0c1818446cb5ac748d064c520085da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 03/47] fix: accept a multi-line raw string whose body is a
 single quote

---
 src/v2_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 0e2fd16..96bb440 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1359,7 +1359,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if body == "\"" {
+    if !is_multiline && body == "\"" {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
-- 
2.43.0


From c0dc7f77553f0e1e322ab02db0d3065fc098211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 04/47] fix: reject slashdashed nodes that follow an
 unterminated node

---
 src/v2_parser.rs | 59 +++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 96bb440..6ecd56b 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -265,32 +265,30 @@ pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
 
 /// `nodes := (line-space* node)* line-space*`
 fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
-    let mut leading = repeat(0.., alt((line_space, slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    // Whatever has been consumed that no node has claimed so far.
+    let mut unclaimed = nodes_leading.parse_next(input)?;
     let _start = input.checkpoint();
-    let mut ns: Vec<KdlNode> = separated(
-        0..,
-        node,
-        alt((node_terminator.void(), (eof.void(), any.void()).void())),
-    )
-    .parse_next(input)?;
-    let _span = span_from_checkpoint(input, &_start);
-    opt(node_terminator).parse_next(input)?;
-    let trailing = repeat(0.., alt((line_space, slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
-
-    // If there is a node, let it have the leading format
-    // This gives more consistent behavior
-    if let Some(first_node) = ns.get_mut(0)
-        && let Some(first_node_format) = first_node.format_mut()
-    {
-        first_node_format.leading = leading.into();
-        leading = "";
+    let mut _span = span_from_checkpoint(input, &_start);
+    let mut ns: Vec<KdlNode> = Vec::new();
+    while let Some(mut nd) = opt(base_node).parse_next(input)? {
+        if let Some(fmt) = nd.format_mut() {
+            fmt.leading = unclaimed.into();
+        }
+        ns.push(nd);
+        _span = span_from_checkpoint(input, &_start);
+        unclaimed = "";
+        // Nothing, not even a slashdashed node, may follow a node that has not
+        // been terminated.
+        if opt(node_terminator).parse_next(input)?.is_none() {
+            break;
+        }
+        unclaimed = nodes_leading.parse_next(input)?;
     }
+    let (leading, trailing) = if ns.is_empty() {
+        (unclaimed, "")
+    } else {
+        ("", unclaimed)
+    };
 
     Ok(KdlDocument {
         nodes: ns,
@@ -303,6 +301,14 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
     })
 }
 
+/// Everything that may come before a node: `(line-space | slashdashed-node)*`
+fn nodes_leading<'s>(input: &mut Input<'s>) -> PResult<&'s str> {
+    repeat(0.., alt((line_space, slashdashed_node)))
+        .map(|()| ())
+        .take()
+        .parse_next(input)
+}
+
 /// base-node := slashdash? type? node-space* string
 ///      (node-space+ slashdash? node-prop-or-arg)*
 ///      (node-space+ slashdash node-children)*
@@ -312,10 +318,7 @@ fn nodes(input: &mut Input<'_>) -> PResult<KdlDocument> {
 /// node := base-node node-space* node-terminator
 /// final-node := base-node node-space* node-terminator?
 fn node(input: &mut Input<'_>) -> PResult<KdlNode> {
-    let leading = repeat(0.., alt((line_space, slashdashed_node)))
-        .map(|()| ())
-        .take()
-        .parse_next(input)?;
+    let leading = nodes_leading.parse_next(input)?;
     let mut nd = base_node.parse_next(input)?;
     if let Some(fmt) = nd.format_mut() {
         fmt.leading = leading.into();
-- 
2.43.0


From 72170787e4e1c946a96e09d6a3fc3fb8af0c777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 05/47] fix: keep whitespace after children, and parse each
 child block once

---
 src/v2_parser.rs | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 6ecd56b..ec5ee5e 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -395,29 +395,20 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
     )
     .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
     .parse_next(input)?;
-    let children = opt((
-        before_node_children.take(),
-        trace("node children", node_children),
-    ))
-    .parse_next(input)?;
-    let (before_terminator, terminator) = if children.is_some() {
-        (
-            opt(slashdashed_children).take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+    // What comes before the children is what comes before the terminator if
+    // there turn out not to be any children.
+    let before_children = before_node_children.take().parse_next(input)?;
+    let children = opt(trace("node children", node_children)).parse_next(input)?;
+    let (before_children, before_terminator) = if children.is_some() {
+        let before_terminator = (opt(slashdashed_children), node_space0)
+            .take()
+            .parse_next(input)?;
+        (before_children, before_terminator)
     } else {
-        (
-            before_node_children.take(),
-            peek(opt(node_terminator).take()),
-        )
-            .parse_next(input)?
+        ("", before_children)
     };
-    node_space0.parse_next(input)?;
+    let terminator = peek(opt(node_terminator).take()).parse_next(input)?;
     let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
-    let (before_children, children) = children
-        .map(|(before_children, children)| (before_children.into(), Some(children)))
-        .unwrap_or(("".into(), None));
     Ok(KdlNode {
         ty,
         name,
@@ -427,7 +418,7 @@ fn base_node(input: &mut Input<'_>) -> PResult<KdlNode> {
             before_ty_name: before_inner_ty.into(),
             after_ty_name: after_inner_ty.into(),
             after_ty: after_ty.into(),
-            before_children,
+            before_children: before_children.into(),
             before_terminator: before_terminator.into(),
             terminator: terminator.into(),
             ..Default::default()
-- 
2.43.0


From 9d9d975682bdc7dd2caa8a671637972e9843dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 06/47] fix: parse long and deeply nested comments without
 recursion

---
 src/v2_parser.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index ec5ee5e..cadcc0b 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1674,19 +1674,20 @@ fn multi_line_comment(input: &mut Input<'_>) -> PResult<()> {
 
 /// `commented-block := '*/' | (multi-line-comment | '*' | '/' | [^*/]+) commented-block`
 fn commented_block(input: &mut Input<'_>) -> PResult<()> {
-    alt((
-        "*/".void(),
-        preceded(
-            alt((
-                multi_line_comment,
-                "*".void(),
-                "/".void(),
-                repeat(1.., none_of(['*', '/'])).map(|()| ()),
-            )),
-            commented_block,
-        ),
-    ))
-    .parse_next(input)
+    // Neither long nor deeply nested comments should exhaust the stack, so this
+    // counts comment openings instead of recursing into them.
+    let mut depth = 1usize;
+    while depth > 0 {
+        depth = alt((
+            "*/".value(depth - 1),
+            "/*".value(depth + 1),
+            "*".value(depth),
+            "/".value(depth),
+            take_while(1.., |c| c != '*' && c != '/').value(depth),
+        ))
+        .parse_next(input)?;
+    }
+    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 84ef39f491814abb53b503c7491bb22eb4adab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 07/47] fix: reject U+007F and single-line raw strings that
 start with two quotes

---
 src/v2_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index cadcc0b..762dd2a 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1353,7 +1353,7 @@ fn raw_string(input: &mut Input<'_>) -> PResult<KdlValue> {
         "\"".context(cx().lbl("raw string closing quotes"))
     };
     cut_err((closing_quotes, &hashes[..])).parse_next(input)?;
-    if !is_multiline && body == "\"" {
+    if !is_multiline && (body == "\"" || body.starts_with("\"\"")) {
         Err(ErrMode::Cut(KdlParseError {
             message: Some("Single-line raw strings cannot look like multi-line ones".into()),
             span: Some((_start_loc..input.previous_token_end()).into()),
@@ -1567,6 +1567,7 @@ pub(crate) fn is_disallowed_unicode(c: char) -> bool {
     matches!(c,
         '\u{0000}'..='\u{0008}'
         | '\u{000E}'..='\u{001F}'
+        | '\u{007F}'
         | '\u{200E}'..='\u{200F}'
         | '\u{202A}'..='\u{202E}'
         | '\u{2066}'..='\u{2069}'
-- 
2.43.0


From e4758dd32477e36f6b86f798024e55b6da258294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 08/47] fix: reject -inf as an identifier string

---
 src/v2_parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 762dd2a..d12ff9b 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -975,11 +975,17 @@ fn unambiguous_ident(input: &mut Input<'_>) -> PResult<()> {
     .parse_next(input)
 }
 
-/// `signed-ident := sign ((identifier-char - digit - '.') identifier-char*)?`
+/// `signed-ident := sign ((identifier-char - digit - '.') identifier-char*)? - '-inf'`
 fn signed_ident(input: &mut Input<'_>) -> PResult<()> {
-    alt(("+", "-")).parse_next(input)?;
-    not(alt((digit1.void(), ".".void()))).parse_next(input)?;
-    repeat(0.., identifier_char).parse_next(input)
+    (
+        alt(("+", "-")),
+        not(alt((digit1.void(), ".".void()))),
+        repeat(0.., identifier_char).map(|_: ()| ()),
+    )
+        .take()
+        .verify(|s: &str| s != "-inf")
+        .void()
+        .parse_next(input)
 }
 
 /// `dotted-ident := sign? '.' ((identifier-char - digit) identifier-char*)?`
-- 
2.43.0


From 8be698143c483438e829c5e8a2cd6b3f8eff44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 09/47] fix: a slashdash may not be followed by another
 slashdash

---
 src/v2_parser.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index d12ff9b..5db0891 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -534,6 +534,17 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let leading = (node_space0, opt((slashdashed_entries, node_space1)))
         .take()
         .parse_next(input)?;
+    let entry = prop_or_arg.parse_next(input)?;
+    Ok(entry.map(|mut value| {
+        if let Some(fmt) = value.format_mut() {
+            fmt.leading = leading.into();
+        }
+        value
+    }))
+}
+
+/// Just the entry itself, without anything that may come before it.
+fn prop_or_arg(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let _start = input.checkpoint();
     let maybe_ident = trace("prop name or string val", opt(identifier)).parse_next(input)?;
     let ident_was_parsed = maybe_ident.is_some();
@@ -581,20 +592,16 @@ fn node_entry(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
             .parse_next(input)?
             .flatten()
     };
-    Ok(entry.map(|mut value| {
-        if let Some(fmt) = value.format_mut() {
-            fmt.leading = leading.into();
-        }
-        #[cfg(feature = "span")]
-        {
-            value.span = span_from_checkpoint(input, &_start);
-        }
+    #[cfg(feature = "span")]
+    let entry = entry.map(|mut value| {
+        value.span = span_from_checkpoint(input, &_start);
         value
-    }))
+    });
+    Ok(entry)
 }
 
 fn slashdashed_entries(input: &mut Input<'_>) -> PResult<()> {
-    separated(1.., (slashdash, node_entry), node_space1)
+    separated(1.., (slashdash, prop_or_arg), node_space1)
         .map(|()| ())
         .take()
         .map(|x| x.to_string())
-- 
2.43.0


From 20809fa5228e9a50854956b00f94ec7a7818b764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 10/47] fix: print strings so that they parse back to the same
 value

---
 src/value.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 50853c0..deeb04e 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -154,13 +154,15 @@ impl Display for KdlValue {
 }
 
 pub(crate) fn is_plain_ident(ident: &str) -> bool {
-    let ident_bytes = ident.as_bytes();
-    ident
-        .find(crate::v2_parser::is_disallowed_ident_char)
-        .is_none()
-        && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
-        && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
-            && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
+    let unsigned = ident.strip_prefix(['-', '+']).unwrap_or(ident);
+    !ident.is_empty()
+        && ident
+            .find(crate::v2_parser::is_disallowed_ident_char)
+            .is_none()
+        && !unsigned
+            .strip_prefix('.')
+            .unwrap_or(unsigned)
+            .starts_with(|c: char| c.is_ascii_digit())
         && ident != "inf"
         && ident != "-inf"
         && ident != "nan"
@@ -179,7 +181,7 @@ fn plain_ident_test() {
 impl KdlValue {
     fn write_string(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let string = self.as_string().unwrap();
-        if !string.is_empty() && is_plain_ident(string) {
+        if is_plain_ident(string) {
             write!(f, "{string}")?;
         } else {
             write!(f, "\"")?;
@@ -191,6 +193,13 @@ impl KdlValue {
                     '\t' => write!(f, "\\t")?,
                     '\u{08}' => write!(f, "\\b")?,
                     '\u{0C}' => write!(f, "\\f")?,
+                    // These can only be written as escapes.
+                    '\u{0B}' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
+                        write!(f, "\\u{{{:x}}}", char as u32)?
+                    }
+                    _ if crate::v2_parser::is_disallowed_unicode(char) => {
+                        write!(f, "\\u{{{:x}}}", char as u32)?
+                    }
                     _ => write!(f, "{char}")?,
                 }
             }
-- 
2.43.0


From 5b34066a79e2f0dae3080e5674138ed4f2463d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 11/47] fix: print the whitespace around a node's type
 annotation

---
 src/node.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6b3c75f..e6d40a6 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -277,13 +277,18 @@ impl KdlNode {
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
         if let Some(KdlNodeFormat {
             leading,
+            before_ty_name,
+            after_ty_name,
+            after_ty,
             before_terminator,
             terminator,
             trailing,
             before_children,
-            ..
         }) = self.format_mut()
         {
+            before_ty_name.clear();
+            after_ty_name.clear();
+            after_ty.clear();
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
@@ -835,7 +840,17 @@ impl KdlNode {
             write!(f, "{:indent$}", "", indent = indent)?;
         }
         if let Some(ty) = &self.ty {
-            write!(f, "({ty})")?;
+            if let Some(KdlNodeFormat {
+                before_ty_name,
+                after_ty_name,
+                after_ty,
+                ..
+            }) = self.format()
+            {
+                write!(f, "({before_ty_name}{ty}{after_ty_name}){after_ty}")?;
+            } else {
+                write!(f, "({ty})")?;
+            }
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
-- 
2.43.0


From 132248b40d3112c952b5bc3221e4e025c9e8b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 12/47] fix: separate nodes and entries that bring no separator
 of their own

---
 src/document.rs |  8 +++++++-
 src/node.rs     | 19 ++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 300f176..8bd54df 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -541,8 +541,14 @@ impl KdlDocument {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
         }
-        for node in &self.nodes {
+        for (i, node) in self.nodes.iter().enumerate() {
             node.stringify(f, indent)?;
+            // Only the very last thing in a document can go unterminated.
+            let is_last = i + 1 == self.nodes.len()
+                && self.format().is_none_or(|fmt| fmt.trailing.is_empty());
+            if node.format().is_none() || (!is_last && !node.is_terminated()) {
+                writeln!(f)?;
+            }
         }
         if let Some(KdlDocumentFormat { trailing, .. }) = self.format() {
             write!(f, "{trailing}")?;
diff --git a/src/node.rs b/src/node.rs
index e6d40a6..9d062b2 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -140,6 +140,9 @@ impl KdlNode {
     /// children formatting will also be cleared.
     pub fn clear_format_recursive(&mut self) {
         self.clear_format();
+        if let Some(ty) = &mut self.ty {
+            ty.clear_format();
+        }
         self.name.clear_format();
         if let Some(children) = &mut self.children {
             children.clear_format_recursive();
@@ -829,6 +832,20 @@ impl Display for KdlNode {
 }
 
 impl KdlNode {
+    /// Whether this node's own formatting marks where it ends, so that
+    /// something else may follow it.
+    pub(crate) fn is_terminated(&self) -> bool {
+        self.format().is_some_and(|fmt| {
+            fmt.terminator == ";"
+                || fmt
+                    .terminator
+                    .ends_with(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
+                || fmt
+                    .trailing
+                    .contains(|c| c == ';' || v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
+        })
+    }
+
     pub(crate) fn stringify(
         &self,
         f: &mut std::fmt::Formatter<'_>,
@@ -855,7 +872,7 @@ impl KdlNode {
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
         for entry in &self.entries {
-            if entry.format().is_none() {
+            if entry.format().is_none_or(|fmt| fmt.leading.is_empty()) {
                 write!(f, " ")?;
             }
             write!(f, "{entry}")?;
-- 
2.43.0


From ac095c3fded8985a7f32ce1b9dd21fa6412c7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 13/47] fix: put new child blocks after slashdashed entries

---
 src/node.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 9d062b2..9b3d4cb 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -232,9 +232,21 @@ impl KdlNode {
 
     /// Sets the KdlDocument representing this node's children.
     pub fn set_children(&mut self, children: KdlDocument) {
+        self.make_room_for_children();
         self.children = Some(children);
     }
 
+    /// Slashdashed entries have to come before the children block, so what used
+    /// to be in front of the terminator goes in front of new children.
+    fn make_room_for_children(&mut self) {
+        if self.children.is_none()
+            && let Some(fmt) = self.format.as_mut()
+        {
+            let before_terminator = std::mem::take(&mut fmt.before_terminator);
+            fmt.before_children.push_str(&before_terminator);
+        }
+    }
+
     /// Removes this node's children completely.
     pub fn clear_children(&mut self) {
         self.children = None;
@@ -244,6 +256,7 @@ impl KdlNode {
     /// creating one first if one does not already exist.
     pub fn ensure_children(&mut self) -> &mut KdlDocument {
         if self.children.is_none() {
+            self.make_room_for_children();
             self.children = Some(KdlDocument::new());
         }
         self.children_mut().as_mut().unwrap()
-- 
2.43.0


From afdfed9c55ea46a0f98a81f0b55b1005e890c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 14/47] fix: end a trailing slashdashed node before a node that
 is added after it

---
 src/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 8bd54df..7278228 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -540,6 +540,10 @@ impl KdlDocument {
     ) -> std::fmt::Result {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
+            // A slashdashed node has to end before the next node starts.
+            if leading.contains("/-") && !self.nodes.is_empty() {
+                writeln!(f)?;
+            }
         }
         for (i, node) in self.nodes.iter().enumerate() {
             node.stringify(f, indent)?;
-- 
2.43.0


From d5825b4dbb49a709c90a94a09f552cc2ace07d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 15/47] fix: remove properties by name, whatever their
 representation

---
 src/node.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 9b3d4cb..6ecf888 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -720,12 +720,12 @@ impl KdlNode {
     fn remove_impl(&mut self, key: NodeKey) -> Option<KdlEntry> {
         match key {
             NodeKey::Key(key) => {
-                for (idx, entry) in self.entries.iter().enumerate() {
-                    if entry.name.is_some() && entry.name.as_ref() == Some(&key) {
-                        return Some(self.entries.remove(idx));
-                    }
-                }
-                None
+                // Same lookup as in `entry`: by value, and the last one wins.
+                let idx = self
+                    .entries
+                    .iter()
+                    .rposition(|e| e.name.as_ref().map(|i| i.value()) == Some(key.value()))?;
+                Some(self.entries.remove(idx))
             }
             NodeKey::Index(idx) => {
                 let mut current_idx = 0;
-- 
2.43.0


From 4d01216249755867416d9a24bfa6a5f3c333e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 16/47] fix: order values consistently with their equality

---
 src/value.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/value.rs b/src/value.rs
index deeb04e..4d6426e 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -1,7 +1,7 @@
 use std::fmt::Display;
 
 /// A specific [KDL Value](https://github.com/kdl-org/kdl/blob/main/SPEC.md#value).
-#[derive(Debug, Clone, PartialOrd)]
+#[derive(Debug, Clone)]
 pub enum KdlValue {
     /// A [KDL String](https://github.com/kdl-org/kdl/blob/main/SPEC.md#string).
     String(String),
@@ -45,6 +45,30 @@ impl PartialEq for KdlValue {
     }
 }
 
+// Has to agree with `PartialEq`, which is not the case for a derived impl.
+impl PartialOrd for KdlValue {
+    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
+        fn rank(value: &KdlValue) -> u8 {
+            match value {
+                KdlValue::String(_) => 0,
+                KdlValue::Integer(_) => 1,
+                KdlValue::Float(_) => 2,
+                KdlValue::Bool(_) => 3,
+                KdlValue::Null => 4,
+            }
+        }
+        match (self, other) {
+            (Self::String(l0), Self::String(r0)) => l0.partial_cmp(r0),
+            (Self::Integer(l0), Self::Integer(r0)) => l0.partial_cmp(r0),
+            (Self::Float(l0), Self::Float(r0)) => {
+                normalize_float(l0).partial_cmp(&normalize_float(r0))
+            }
+            (Self::Bool(l0), Self::Bool(r0)) => l0.partial_cmp(r0),
+            _ => rank(self).partial_cmp(&rank(other)),
+        }
+    }
+}
+
 // NOTE: I know, I know. This is terrible and I shouldn't do it, but it's
 // better than not being able to hash KdlValue at all.
 impl std::hash::Hash for KdlValue {
-- 
2.43.0


From 1265f8b736e9e753578870b8413bec51ec7d645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 17/47] fix: autoformat type annotations of entries

---
 src/entry.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry.rs b/src/entry.rs
index 93fcef4..bc747ed 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -190,6 +190,9 @@ impl KdlEntry {
             });
         }
 
+        if let Some(ty) = &mut self.ty {
+            ty.autoformat();
+        }
         if let Some(name) = &mut self.name {
             name.autoformat();
         }
-- 
2.43.0


From 9d8e353b79677fcd873efae7a94b849bd219c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 18/47] fix: autoformat keeps slashdashed nodes apart and
 indents documents once

---
 src/document.rs | 14 ++++++++++++--
 src/fmt.rs      | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 7278228..0fc1fc0 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -251,8 +251,18 @@ impl KdlDocument {
 
     /// Formats the document according to `config`.
     pub fn autoformat_config(&mut self, config: &FormatConfig<'_>) {
-        if let Some(KdlDocumentFormat { leading, .. }) = (*self).format_mut() {
-            crate::fmt::autoformat_leading(leading, config);
+        if let Some(KdlDocumentFormat { leading, .. }) = self.format.as_mut() {
+            if leading.starts_with('\u{feff}') {
+                leading.remove(0);
+            }
+            // Nodes bring their own indentation.
+            crate::fmt::autoformat_lines(leading, config);
+            if self.nodes.is_empty() {
+                leading.truncate(leading.trim_end().len());
+                if !leading.is_empty() {
+                    leading.push('\n');
+                }
+            }
         }
         let mut has_nodes = false;
         for node in &mut self.nodes {
diff --git a/src/fmt.rs b/src/fmt.rs
index 238fb75..8c93815 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -1,5 +1,7 @@
 use std::fmt::Write as _;
 
+use crate::v2_parser;
+
 /// Formatting configuration for use with [`KdlDocument::autoformat_config`](`crate::KdlDocument::autoformat_config`)
 /// and [`KdlNode::autoformat_config`](`crate::KdlNode::autoformat_config`).
 #[non_exhaustive]
@@ -112,25 +114,38 @@ impl<'a> FormatConfigBuilder<'a> {
 }
 
 pub(crate) fn autoformat_leading(leading: &mut String, config: &FormatConfig<'_>) {
+    autoformat_lines(leading, config);
+    for _ in 0..config.indent_level {
+        leading.push_str(config.indent);
+    }
+}
+
+/// Puts every line of `decor` that has something on it on an indented line of
+/// its own.
+pub(crate) fn autoformat_lines(decor: &mut String, config: &FormatConfig<'_>) {
     let mut result = String::new();
     if !config.no_comments {
-        let input = leading.trim();
-        if !input.is_empty() {
-            for line in input.lines() {
-                let trimmed = line.trim();
-                if !trimmed.is_empty() {
-                    for _ in 0..config.indent_level {
-                        result.push_str(config.indent);
-                    }
-                    writeln!(result, "{trimmed}").unwrap();
+        let input = decor.replace("\r\n", "\n");
+        let mut lines = input
+            .split(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
+            .peekable();
+        let has_slashdash = input.contains("/-");
+        let mut maybe_continued = false;
+        while let Some(line) = lines.next() {
+            let trimmed = line.trim();
+            if !trimmed.is_empty() {
+                for _ in 0..config.indent_level {
+                    result.push_str(config.indent);
                 }
+                writeln!(result, "{trimmed}").unwrap();
+            } else if maybe_continued && lines.peek().is_some() {
+                // This line ends a slashdashed node.
+                writeln!(result).unwrap();
             }
+            maybe_continued = has_slashdash && trimmed.contains('\\');
         }
     }
-    for _ in 0..config.indent_level {
-        result.push_str(config.indent);
-    }
-    *leading = result;
+    *decor = result;
 }
 
 pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
-- 
2.43.0


From 0762676e59cd667ed4be9773af9b553f98a01752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 19/47] fix: autoformat keeps comments after nodes and indents
 unformatted nodes

---
 src/node.rs      | 27 ++++++++++++++++++++-------
 src/v2_parser.rs |  6 ++++++
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 6ecf888..c3a7d4f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -308,19 +308,33 @@ impl KdlNode {
             crate::fmt::autoformat_leading(leading, config);
             crate::fmt::autoformat_trailing(before_terminator, config.no_comments);
             crate::fmt::autoformat_trailing(trailing, config.no_comments);
+            // Only a line continuation needs a newline besides the terminator's.
+            let trimmed = before_terminator.trim_end();
+            if !v2_parser::is_open_escline(trimmed) {
+                before_terminator.truncate(trimmed.len());
+            }
             *trailing = trailing.trim().into();
-            if !terminator.starts_with('\n') {
+            if terminator.starts_with("//") && !config.no_comments {
+                if before_terminator.is_empty() {
+                    before_terminator.push(' ');
+                }
+                terminator.truncate(terminator.trim_end().len());
+                terminator.push('\n');
+            } else {
                 *terminator = "\n".into();
             }
             if let Some(c) = trailing.chars().next()
                 && !c.is_whitespace()
             {
                 trailing.insert(0, ' ');
+                trailing.push('\n');
             }
 
             *before_children = " ".into();
         } else {
             self.set_format(KdlNodeFormat {
+                leading: config.indent.repeat(config.indent_level),
+                before_children: " ".into(),
                 terminator: "\n".into(),
                 ..Default::default()
             })
@@ -340,12 +354,11 @@ impl KdlNode {
                 indent_level: config.indent_level + 1,
                 ..*config
             });
-            if let Some(KdlDocumentFormat { leading, trailing }) = children.format_mut() {
-                *leading = leading.trim().into();
-                leading.push('\n');
-                for _ in 0..config.indent_level {
-                    trailing.push_str(config.indent);
-                }
+            let KdlDocumentFormat { leading, trailing } = children.format.get_or_insert_default();
+            *leading = leading.trim().into();
+            leading.push('\n');
+            for _ in 0..config.indent_level {
+                trailing.push_str(config.indent);
             }
         }
     }
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 5db0891..d654436 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -725,6 +725,12 @@ fn before_node_children(input: &mut Input<'_>) -> PResult<()> {
     Ok(())
 }
 
+/// Whether what comes before a node's terminator ends in a line continuation
+/// that still lacks its newline.
+pub(crate) fn is_open_escline(before_terminator: &str) -> bool {
+    try_parse(before_node_children, &format!("{before_terminator}\n")).is_ok()
+}
+
 #[cfg(test)]
 #[test]
 fn before_node_children_test() {
-- 
2.43.0


From 9fb376579ea1218bc7db5598bbabf0005d688ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 20/47] fix: entries converted to v2 keep their values

---
 src/entry.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/entry.rs b/src/entry.rs
index bc747ed..340bb1c 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -225,8 +225,10 @@ impl KdlEntry {
 
     /// Makes sure this entry is in v2 format.
     pub fn ensure_v2(&mut self) {
+        self.ty = self.ty.take().map(|ty| ty.value().into());
+        self.name = self.name.take().map(|name| name.value().into());
         let value_repr = self.format.as_ref().map(|x| {
-            match &self.value {
+            let repr = match &self.value {
                 KdlValue::String(val) => {
                     // cleanup. I don't _think_ this should have any whitespace,
                     // but just in case.
@@ -269,6 +271,15 @@ impl KdlEntry {
                 KdlValue::Bool(_) | KdlValue::Null => format!("{}", self.value),
                 // These should be fine as-is?
                 KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
+            };
+            // The above goes by the looks of things, so make sure that it still
+            // means the same thing.
+            if self.is_v2_repr(&repr) {
+                repr
+            } else if self.is_v2_repr(&x.value_repr) {
+                x.value_repr.clone()
+            } else {
+                self.value.to_string()
             }
         });
 
@@ -289,6 +300,18 @@ impl KdlEntry {
         }
     }
 
+    /// Whether `repr`, and nothing but it, is v2 syntax for this entry's value.
+    fn is_v2_repr(&self, repr: &str) -> bool {
+        let entry: Result<Self, KdlError> =
+            v2_parser::try_parse(v2_parser::padded_node_entry, repr);
+        entry.is_ok_and(|entry| {
+            entry.name.is_none()
+                && entry.ty.is_none()
+                && entry.value == self.value
+                && entry.format.is_some_and(|fmt| fmt.value_repr == repr)
+        })
+    }
+
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-- 
2.43.0


From c73eff231e7ac388e0f9dc0e5c567bfa4bb94511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 21/47] fix: documents converted to v1 keep their content

---
 src/entry.rs      | 142 +++++++++++++++++++---------------------------
 src/identifier.rs |  15 +++++
 src/node.rs       |  20 +++++--
 3 files changed, 88 insertions(+), 89 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 340bb1c..3906810 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -315,92 +315,32 @@ impl KdlEntry {
     /// Makes sure this entry is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        let value_repr = self.format.as_ref().map(|x| {
-            match &self.value {
-                KdlValue::String(val) => {
-                    // cleanup. I don't _think_ this should have any whitespace,
-                    // but just in case.
-                    let s = x.value_repr.trim();
-                    // convert raw strings to v1 format
-                    let s = if s.starts_with('#') {
-                        format!("r{s}")
-                    } else {
-                        s.to_string()
-                    };
-
-                    if crate::value::is_plain_ident(val)
-                        && !s.starts_with('\"')
-                        && !s.starts_with("r#")
-                    {
-                        format!("\"{val}\"")
-                    } else if s
-                        .find(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                        .is_some()
-                    {
-                        // Multiline string. Let's make sure it's v1.
-                        if s.contains("\"\"\"") {
-                            let prefix = s
-                                .chars()
-                                .rev()
-                                .skip_while(|c| c == &'"')
-                                .take_while(|c| {
-                                    v2_parser::NEWLINES.iter().any(|nl| nl.contains(*c))
-                                })
-                                .collect::<String>();
-                            let prefix = prefix.chars().rev().collect::<String>();
-                            // Sigh. Yeah. I didn't promise this would be _efficient_.
-                            let mut s = s;
-                            for nl in v2_parser::NEWLINES {
-                                s = s.replace(&format!("{nl}{prefix}"), nl);
-                            }
-                            // And now we strips the beginning and ending newlines.
-                            // Finally, replace `"""` with `"`.
-                            s
-                        } else {
-                            // It's already a v1 string
-                            s
-                        }
-                    } else if !s.starts_with("r#") {
-                        // `/` is an escaped char in v2
-                        let s = s.replace("\\/", "/"); // Maneuvering. Will fix in a sec.
-                        s.replace('/', "\\/")
-                    } else {
-                        // We're all good! Let's move on.
-                        s.to_string()
-                    }
-                }
-                // No more # prefix for these
-                KdlValue::Bool(b) => b.to_string(),
-                KdlValue::Null => "null".to_string(),
+        self.ty = self.ty.take().map(|ty| ty.to_v1());
+        self.name = self.name.take().map(|name| name.to_v1());
+        let v1_val = match self.value() {
+            KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()).to_string(),
+            KdlValue::Integer(i) => i.to_string(),
+            KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f).to_string(),
+            // No more # prefix for these
+            KdlValue::Bool(b) => b.to_string(),
+            KdlValue::Null => "null".to_string(),
+        };
+        if let Some(fmt) = &mut self.format {
+            fmt.value_repr = match &self.value {
+                KdlValue::String(_) => v1_string_repr(fmt.value_repr.trim()).unwrap_or(v1_val),
                 // These should be fine as-is?
-                KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),
-            }
-        });
-
-        if let Some(value_repr) = value_repr.as_ref() {
-            self.format = Some(
-                self.format
-                    .clone()
-                    .map(|mut x| {
-                        x.value_repr = value_repr.into();
-                        x
-                    })
-                    .unwrap_or_else(|| KdlEntryFormat {
-                        value_repr: value_repr.into(),
-                        leading: " ".into(),
-                        ..Default::default()
-                    }),
-            )
-        } else {
-            let v1_val = match self.value() {
-                KdlValue::String(s) => kdlv1::KdlValue::String(s.clone()),
-                KdlValue::Integer(i) => kdlv1::KdlValue::Base10(*i as i64),
-                KdlValue::Float(f) => kdlv1::KdlValue::Base10Float(*f),
-                KdlValue::Bool(b) => kdlv1::KdlValue::Bool(*b),
-                KdlValue::Null => kdlv1::KdlValue::Null,
+                KdlValue::Integer(_) | KdlValue::Float(_) => fmt.value_repr.clone(),
+                KdlValue::Bool(_) | KdlValue::Null => v1_val,
             };
+            // v1 does not allow any of these.
+            fmt.after_ty.clear();
+            fmt.before_ty_name.clear();
+            fmt.after_ty_name.clear();
+            fmt.after_key.clear();
+            fmt.after_eq.clear();
+        } else {
             self.format = Some(KdlEntryFormat {
-                value_repr: v1_val.to_string(),
+                value_repr: v1_val,
                 leading: " ".into(),
                 ..Default::default()
             })
@@ -408,6 +348,42 @@ impl KdlEntry {
     }
 }
 
+/// Converts the representation of a string to v1, if v1 has got something like
+/// it.
+#[cfg(feature = "v1")]
+fn v1_string_repr(repr: &str) -> Option<String> {
+    if repr.starts_with("r\"") || repr.starts_with("r#") {
+        // It's already a v1 string
+        return Some(repr.into());
+    }
+    let body = repr.trim_start_matches('#');
+    if !body.starts_with('"') || body.starts_with("\"\"\"") {
+        return None;
+    }
+    if body.len() < repr.len() {
+        // convert raw strings to v1 format
+        return Some(format!("r{repr}"));
+    }
+    let mut v1 = String::new();
+    let mut chars = repr.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => match chars.next()? {
+                c @ ('"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u') => {
+                    v1.push('\\');
+                    v1.push(c);
+                }
+                // Only v2 has got whitespace escapes.
+                _ => return None,
+            },
+            // `/` is an escaped char in v1
+            '/' => v1.push_str("\\/"),
+            c => v1.push(c),
+        }
+    }
+    Some(v1)
+}
+
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlEntry> for KdlEntry {
     fn from(value: kdlv1::KdlEntry) -> Self {
diff --git a/src/identifier.rs b/src/identifier.rs
index 49762f6..a5d1356 100644
--- a/src/identifier.rs
+++ b/src/identifier.rs
@@ -112,6 +112,21 @@ impl KdlIdentifier {
         let ret: Result<kdlv1::KdlIdentifier, kdlv1::KdlError> = s.parse();
         ret.map(|x| x.into()).map_err(|e| e.into())
     }
+
+    /// The same identifier, written in a way that is valid in v1.
+    #[cfg(feature = "v1")]
+    pub(crate) fn to_v1(&self) -> Self {
+        let v1_name = kdlv1::KdlIdentifier::from(self.value());
+        let mut name = Self::from(self.value());
+        name.set_repr(
+            if crate::value::is_plain_ident(self.value()) && v1_name.to_string() == self.value() {
+                self.value().into()
+            } else {
+                kdlv1::KdlValue::from(self.value()).to_string()
+            },
+        );
+        name
+    }
 }
 
 #[cfg(feature = "v1")]
diff --git a/src/node.rs b/src/node.rs
index c3a7d4f..95ff950 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -405,17 +405,25 @@ impl KdlNode {
     /// Makes sure this node is in v1 format.
     #[cfg(feature = "v1")]
     pub fn ensure_v1(&mut self) {
-        self.ty = self.ty.take().map(|ty| {
-            let v1_name: kdlv1::KdlIdentifier = ty.value().into();
-            v1_name.into()
-        });
-        let v1_name: kdlv1::KdlIdentifier = self.name.value().into();
-        self.name = v1_name.into();
+        self.ty = self.ty.take().map(|ty| ty.to_v1());
+        self.name = self.name.to_v1();
+        if let Some(fmt) = &mut self.format {
+            // v1 does not allow any of these.
+            fmt.before_ty_name.clear();
+            fmt.after_ty_name.clear();
+            fmt.after_ty.clear();
+        }
         for entry in self.iter_mut() {
             entry.ensure_v1();
         }
         self.children = self.children.take().map(|mut children| {
             children.ensure_v1();
+            // Unlike in v2, the last child has to be terminated, too.
+            if let Some(fmt) = children.nodes.last_mut().and_then(|n| n.format_mut())
+                && fmt.terminator.is_empty()
+            {
+                fmt.terminator = ";".into();
+            }
             children
         });
     }
-- 
2.43.0


From 0c85cb2cc04e0c07d81e7d7e005ae327f9db374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 22/47] fix: keep comments apart from the nodes that follow
 them when converting from v1

---
 src/node.rs      | 39 +++++++++++----------------------------
 src/v2_parser.rs | 12 ++++++++++++
 2 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 95ff950..17fc446 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -432,32 +432,15 @@ impl KdlNode {
 #[cfg(feature = "v1")]
 impl From<kdlv1::KdlNode> for KdlNode {
     fn from(value: kdlv1::KdlNode) -> Self {
-        let terminator = value
-            .trailing()
-            .map(|t| if t.contains(';') { ";" } else { "\n" })
-            .unwrap_or("\n");
-        let trailing = value.trailing().map(|t| {
-            if t.contains(';') {
-                t.replace(';', "")
-            } else {
-                let t = t.replace("\r\n", "\n");
-                let t = t
-                    .chars()
-                    .map(|c| {
-                        if v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)) {
-                            '\n'
-                        } else {
-                            c
-                        }
-                    })
-                    .collect::<String>();
-                if terminator == ";" {
-                    t
-                } else {
-                    t.replacen('\n', "", 1)
-                }
-            }
-        });
+        let trailing = value.trailing().unwrap_or("");
+        let (before_terminator, terminator, trailing) =
+            v2_parser::try_parse(v2_parser::after_node, trailing).unwrap_or((trailing, "", ""));
+        // There has to be one, even if the end of the input would do.
+        let terminator = if terminator.is_empty() {
+            "\n"
+        } else {
+            terminator
+        };
         KdlNode {
             ty: value.ty().map(|x| x.clone().into()),
             name: value.name().clone().into(),
@@ -469,9 +452,9 @@ impl From<kdlv1::KdlNode> for KdlNode {
                 after_ty_name: "".into(),
                 after_ty: "".into(),
                 before_children: value.before_children().unwrap_or("").into(),
-                before_terminator: "".into(),
+                before_terminator: before_terminator.into(),
                 terminator: terminator.into(),
-                trailing: trailing.unwrap_or_else(|| "".into()),
+                trailing: trailing.into(),
             }),
             #[cfg(feature = "span")]
             span: SourceSpan::new(value.span().offset().into(), value.span().len()),
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index d654436..59cda37 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -812,6 +812,18 @@ fn node_terminator(input: &mut Input<'_>) -> PResult<()> {
     .parse_next(input)
 }
 
+/// Splits up what comes after a node that has been parsed by other means: what
+/// comes before its terminator, the terminator, and anything after that.
+#[cfg(feature = "v1")]
+pub(crate) fn after_node<'s>(input: &mut Input<'s>) -> PResult<(&'s str, &'s str, &'s str)> {
+    (
+        before_node_children.take(),
+        alt((node_terminator.take(), eof)),
+        winnow::token::rest,
+    )
+        .parse_next(input)
+}
+
 /// `value := type? optional-node-space (string | number | keyword)`
 fn value(input: &mut Input<'_>) -> PResult<Option<KdlEntry>> {
     let ((ty, (value, raw)), _span) = trace(
-- 
2.43.0


From 10abadef80c1e3b1408eac9221b4853816712896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 23/47] fix: autoformat splits what follows a node at every
 kind of newline

---
 src/fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 8c93815..85f69da 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -158,7 +158,10 @@ pub(crate) fn autoformat_trailing(decor: &mut String, no_comments: bool) {
         if decor.trim_start() == &decor[..] {
             write!(result, " ").unwrap();
         }
-        for comment in decor.lines() {
+        for comment in decor
+            .replace("\r\n", "\n")
+            .split(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
+        {
             writeln!(result, "{comment}").unwrap();
         }
     }
-- 
2.43.0


From 8b7cdccbc9bd51b59d08d9e5cc626a88e98fa96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 24/47] fix: report any number of bad ends without recursion

---
 src/v2_parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 59cda37..9204867 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -246,14 +246,15 @@ fn new_input(s: &str) -> Input<'_> {
 pub(crate) fn document(input: &mut Input<'_>) -> PResult<KdlDocument> {
     let bom = opt(bom.take()).parse_next(input)?;
     let mut doc = nodes.parse_next(input)?;
-    let badend = resume_after_cut(
+    while resume_after_cut(
         cut_err(eof).context(cx().lbl("EOF").msg("Expected end of document")),
         any.void(),
     )
     .parse_next(input)?
-    .is_none();
-    if badend {
-        document.parse_next(input)?;
+    .is_none()
+    {
+        // Go on after the bad end to find any other errors.
+        (opt(self::bom), nodes).void().parse_next(input)?;
     }
     if let Some(bom) = bom
         && let Some(fmt) = doc.format_mut()
-- 
2.43.0


From 93731d1805b4f559b0584dc8d7d3ab0e93fbf122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 25/47] fix: KdlNode::from_str falls back to v1 like the others

---
 src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.rs b/src/node.rs
index 17fc446..feb4dff 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -838,7 +838,7 @@ impl FromStr for KdlNode {
     type Err = KdlError;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
-        v2_parser::try_parse(v2_parser::padded_node, input)
+        Self::parse(input)
     }
 }
 
-- 
2.43.0


From df535ba2de36ea9493f31ba4c623fa44f9445a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 26/47] fix: report unterminated slashdashed nodes instead of
 parsing them again

---
 src/v2_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 9204867..3bf2b41 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -332,7 +332,14 @@ fn slashdashed_node(input: &mut Input<'_>) -> PResult<()> {
     (
         slashdash,
         base_node,
-        alt((node_terminator, eof.void(), peek("}").void())),
+        // Backtracking would parse the node, and all nodes in it, once more.
+        resume_after_cut(
+            cut_err(alt((node_terminator, eof.void(), peek("}").void()))).context(
+                cx().msg("Expected end of slashdashed node")
+                    .lbl("node terminator"),
+            ),
+            empty,
+        ),
     )
         .void()
         .parse_next(input)
-- 
2.43.0


From ff453de5d46fddb33742153699fe8a5e9179b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 27/47] fix: point at the multi-line comment that is not closed

---
 src/v2_parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 3bf2b41..987f7c9 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1706,10 +1706,19 @@ fn single_line_comment(input: &mut Input<'_>) -> PResult<()> {
 
 /// `multi-line-comment := '/*' commented-block`
 fn multi_line_comment(input: &mut Input<'_>) -> PResult<()> {
+    let _start = input.checkpoint();
     "/*".parse_next(input)?;
     cut_err(commented_block)
         .context(cx().lbl("closing of multi-line comment"))
         .parse_next(input)
+        .map_err(|e| {
+            e.map(|mut e: KdlParseError| {
+                e.span = e
+                    .span
+                    .or_else(|| Some(span_from_checkpoint(input, &_start)));
+                e
+            })
+        })
 }
 
 /// `commented-block := '*/' | (multi-line-comment | '*' | '/' | [^*/]+) commented-block`
-- 
2.43.0


From 0303d4407af49776c2556ab697e9a3f0f8ee2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 28/47] fix: serialize sequences, structs and maps that start
 with false or null

Struct fields left out any value whose first argument was `false` or null,
including `vec![false, true]` and `Some(false)`, and nested maps dropped such
entries.
---
 src/se.rs | 82 ++++++++++++++++++++++---------------------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index 920527a..bab52ee 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -396,14 +396,8 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
         value: &T,
     ) -> Result<(), Self::Error> {
         let mut node = KdlNode::new(key);
-        serialize_value_into_node(&mut node, value)?;
-        match node.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                self.nodes.push(node);
-            }
+        if serialize_value_into_node(&mut node, value)? {
+            self.nodes.push(node);
         }
         Ok(())
     }
@@ -452,16 +446,10 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
             node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
+            let present = serialize_value_into_node(&mut child, value)?;
             let children = node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if present {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -477,17 +465,27 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
 
 /// Serializes a value into a node, adding it as an argument, or as children
 /// if the value is complex (struct/map/seq).
+///
+/// Returns false if the value is one that structs leave out: `false`, `None`
+/// or unit.
 fn serialize_value_into_node<T: ?Sized + Serialize>(
     node: &mut KdlNode,
     value: &T,
-) -> Result<(), Error> {
-    let mut ser = NodeValueSerializer { node };
-    value.serialize(&mut ser)
+) -> Result<bool, Error> {
+    let mut present = true;
+    let mut ser = NodeValueSerializer {
+        node,
+        present: &mut present,
+    };
+    value.serialize(&mut ser)?;
+    Ok(present)
 }
 
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
+    /// Whether a struct needs the node to tell this value.
+    present: &'a mut bool,
 }
 
 impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
@@ -503,6 +501,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     type SerializeStructVariant = NodeChildStructVariantSerializer<'a>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
+        *self.present = v;
         self.node.entries_mut().push(KdlEntry::new(v));
         Ok(())
     }
@@ -569,15 +568,19 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
+        *self.present = false;
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
 
     fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
+        // `Some(false)` is not `None`, so it is always present.
+        serialize_value_into_node(self.node, value)?;
+        Ok(())
     }
 
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
+        *self.present = false;
         self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
         Ok(())
     }
@@ -774,17 +777,9 @@ impl<'a> ser::SerializeMap for NodeChildMapSerializer<'a> {
             .take()
             .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
         let mut child = KdlNode::new(key);
-        let mut child_ser = NodeValueSerializer { node: &mut child };
-        value.serialize(&mut child_ser)?;
-        match child.get(0) {
-            Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                // Skip adding this node
-            }
-            _ => {
-                let children = self.node.ensure_children();
-                children.nodes_mut().push(child);
-            }
-        }
+        serialize_value_into_node(&mut child, value)?;
+        let children = self.node.ensure_children();
+        children.nodes_mut().push(child);
         Ok(())
     }
 
@@ -821,16 +816,10 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
             self.node.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
             let mut child = KdlNode::new(key);
-            let mut child_ser = NodeValueSerializer { node: &mut child };
-            value.serialize(&mut child_ser)?;
+            let present = serialize_value_into_node(&mut child, value)?;
             let children = self.node.ensure_children();
-            match child.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    children.nodes_mut().push(child);
-                }
+            if present {
+                children.nodes_mut().push(child);
             }
         }
         Ok(())
@@ -875,15 +864,8 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
             let kdl_val = to_kdl_value(value)?;
             self.parent.entries_mut().push(KdlEntry::new(kdl_val));
         } else {
-            let mut child_ser = NodeValueSerializer { node: &mut node };
-            value.serialize(&mut child_ser)?;
-            match node.get(0) {
-                Some(KdlValue::Bool(false)) | Some(KdlValue::Null) => {
-                    // Skip adding this node
-                }
-                _ => {
-                    self.children.nodes_mut().push(node);
-                }
+            if serialize_value_into_node(&mut node, value)? {
+                self.children.nodes_mut().push(node);
             }
         }
         Ok(())
-- 
2.43.0


From 041e2aee15235be94be7045f717ccc01848314be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 29/47] fix: serialize top-level struct and tuple variants as
 one node

A struct variant lost all its fields, and a tuple variant became one node
for each of its elements, which no enum is read back from.
---
 src/se.rs | 384 +++++++++---------------------------------------------
 1 file changed, 63 insertions(+), 321 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index bab52ee..c9b1108 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -35,7 +35,7 @@
 //! (de)serialization model.
 
 use serde::ser::{self, Serialize};
-use std::{collections::HashSet, fmt};
+use std::fmt;
 
 use crate::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 
@@ -106,7 +106,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     type SerializeSeq = SeqNodeSerializer<'a>;
     type SerializeTuple = SeqNodeSerializer<'a>;
     type SerializeTupleStruct = SeqNodeSerializer<'a>;
-    type SerializeTupleVariant = SeqNodeSerializer<'a>;
+    type SerializeTupleVariant = TupleVariantSerializer<'a>;
     type SerializeMap = MapNodeSerializer<'a>;
     type SerializeStruct = MapNodeSerializer<'a>;
     type SerializeStructVariant = StructVariantSerializer<'a>;
@@ -256,9 +256,9 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqNodeSerializer {
+        Ok(TupleVariantSerializer {
             nodes: &mut self.doc.nodes,
-            node_name: variant,
+            node: KdlNode::new(variant),
         })
     }
 
@@ -289,9 +289,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
-            variant,
-            children: KdlDocument::new(),
-            used_indices: Default::default(),
+            node: KdlNode::new(variant),
         })
     }
 }
@@ -343,19 +341,6 @@ impl<'a> ser::SerializeTupleStruct for SeqNodeSerializer<'a> {
     }
 }
 
-impl<'a> ser::SerializeTupleVariant for SeqNodeSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct MapNodeSerializer<'a> {
     nodes: &'a mut Vec<KdlNode>,
     current_key: Option<String>,
@@ -407,11 +392,30 @@ impl<'a> ser::SerializeStruct for MapNodeSerializer<'a> {
     }
 }
 
+struct TupleVariantSerializer<'a> {
+    nodes: &'a mut Vec<KdlNode>,
+    node: KdlNode,
+}
+
+impl<'a> ser::SerializeTupleVariant for TupleVariantSerializer<'a> {
+    type Ok = ();
+    type Error = Error;
+
+    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
+        let kdl_val = to_kdl_value(value)?;
+        self.node.entries_mut().push(KdlEntry::new(kdl_val));
+        Ok(())
+    }
+
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        self.nodes.push(self.node);
+        Ok(())
+    }
+}
+
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
-    variant: &'static str,
-    used_indices: HashSet<usize>,
-    children: KdlDocument,
+    node: KdlNode,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -423,42 +427,11 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            node.entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            let mut ser = RestSerializer {
-                node: &mut node,
-                used_indices: &self.used_indices,
-            };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            let idx: usize = key.strip_prefix('#').unwrap().parse().map_err(|e| Error {
-                msg: format!("Failed to parse index rename {key}: {e}"),
-            })?;
-            self.used_indices.insert(idx);
-            let kdl_val = to_kdl_value(value)?;
-            node.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child = KdlNode::new(key);
-            let present = serialize_value_into_node(&mut child, value)?;
-            let children = node.ensure_children();
-            if present {
-                children.nodes_mut().push(child);
-            }
-        }
-        Ok(())
+        serialize_field_into_node(&mut self.node, key, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut node = KdlNode::new(self.variant);
-        node.set_children(self.children);
-        self.parent_nodes.push(node);
+        self.parent_nodes.push(self.node);
         Ok(())
     }
 }
@@ -481,6 +454,39 @@ fn serialize_value_into_node<T: ?Sized + Serialize>(
     Ok(present)
 }
 
+/// Serializes a struct field into the node of its struct.
+fn serialize_field_into_node<T: ?Sized + Serialize>(
+    node: &mut KdlNode,
+    key: &'static str,
+    value: &T,
+) -> Result<(), Error> {
+    if let Some(attr_name) = key.strip_prefix("#@") {
+        let kdl_val = to_kdl_value(value)?;
+        node.entries_mut()
+            .push(KdlEntry::new_prop(attr_name, kdl_val));
+    } else if key == "#args" {
+        let mut ser = ArgsSerializer { node: node };
+        value.serialize(&mut ser)?;
+    } else if key == "#rest" {
+        // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
+        let mut ser = ArgsSerializer { node: node };
+        value.serialize(&mut ser)?;
+    } else if key.starts_with("#") {
+        // TODO(@zkat): How do we get the ordering here?... This will just
+        // insert stuff as we discover it.
+        let kdl_val = to_kdl_value(value)?;
+        node.entries_mut().push(KdlEntry::new(kdl_val));
+    } else {
+        let mut child = KdlNode::new(key);
+        let present = serialize_value_into_node(&mut child, value)?;
+        let children = node.ensure_children();
+        if present {
+            children.nodes_mut().push(child);
+        }
+    }
+    Ok(())
+}
+
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
@@ -797,32 +803,7 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.node
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: self.node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        } else {
-            let mut child = KdlNode::new(key);
-            let present = serialize_value_into_node(&mut child, value)?;
-            let children = self.node.ensure_children();
-            if present {
-                children.nodes_mut().push(child);
-            }
-        }
-        Ok(())
+        serialize_field_into_node(self.node, key, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
@@ -1245,245 +1226,6 @@ impl ser::Serializer for KdlValueSerializer {
     }
 }
 
-struct RestSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-}
-
-impl<'a> ser::Serializer for &'a mut RestSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    type SerializeSeq = RestSeqSerializer<'a>;
-    type SerializeTuple = RestSeqSerializer<'a>;
-    type SerializeTupleStruct = RestSeqSerializer<'a>;
-    type SerializeTupleVariant = ser::Impossible<(), Error>;
-    type SerializeMap = ser::Impossible<(), Error>;
-    type SerializeStruct = ser::Impossible<(), Error>;
-    type SerializeStructVariant = ser::Impossible<(), Error>;
-
-    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Ok(RestSeqSerializer {
-            node: self.node,
-            used_indices: self.used_indices,
-            current_idx: 0,
-        })
-    }
-
-    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_tuple_struct(
-        self,
-        _: &'static str,
-        len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        self.serialize_seq(Some(len))
-    }
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(v));
-        Ok(())
-    }
-
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_u64(v as u64)
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
-        Ok(())
-    }
-
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::Float(v)));
-        Ok(())
-    }
-
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(&v.to_string())
-    }
-
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.node
-            .entries_mut()
-            .push(KdlEntry::new(KdlValue::String(v.to_string())));
-        Ok(())
-    }
-
-    fn serialize_bytes(self, _: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "bytes cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
-        Ok(())
-    }
-
-    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-
-    fn serialize_unit_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(ser::Error::custom(
-            "newtype variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(ser::Error::custom(
-            "maps are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct(
-        self,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(ser::Error::custom(
-            "structs are cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_struct_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "struct variants cannot be represented as KDL arguments",
-        ))
-    }
-
-    fn serialize_tuple_variant(
-        self,
-        _: &'static str,
-        _: u32,
-        _: &'static str,
-        _: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(ser::Error::custom(
-            "tuple variants cannot be represented as KDL arguments",
-        ))
-    }
-}
-
-struct RestSeqSerializer<'a> {
-    node: &'a mut KdlNode,
-    used_indices: &'a HashSet<usize>,
-    current_idx: usize,
-}
-
-impl<'a> ser::SerializeSeq for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        if !self.used_indices.contains(&self.current_idx) {
-            let kdl_val = to_kdl_value(value)?;
-            self.node.entries_mut().push(KdlEntry::new(kdl_val));
-        }
-        self.current_idx += 1;
-        Ok(())
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
-impl<'a> ser::SerializeTuple for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
-impl<'a> ser::SerializeTupleStruct for RestSeqSerializer<'a> {
-    type Ok = ();
-    type Error = Error;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeSeq::serialize_element(self, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        ser::SerializeSeq::end(self)
-    }
-}
-
 struct ArgsSerializer<'a> {
     node: &'a mut KdlNode,
 }
-- 
2.43.0


From 6d6d9347c352ae7f69b323dee47808352bae720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 30/47] fix: serialize arguments in the order of their indices

Fields renamed to `#0`, `#1`... became arguments in the order of the fields,
so they were read back swapped; `#args` and `#rest` of struct variants were
lost.
---
 src/se.rs | 89 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 30 deletions(-)

diff --git a/src/se.rs b/src/se.rs
index c9b1108..9029d52 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -290,6 +290,7 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
         Ok(StructVariantSerializer {
             parent_nodes: &mut self.doc.nodes,
             node: KdlNode::new(variant),
+            indexed: IndexedArgs::default(),
         })
     }
 }
@@ -416,6 +417,7 @@ impl<'a> ser::SerializeTupleVariant for TupleVariantSerializer<'a> {
 struct StructVariantSerializer<'a> {
     parent_nodes: &'a mut Vec<KdlNode>,
     node: KdlNode,
+    indexed: IndexedArgs,
 }
 
 impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
@@ -427,10 +429,11 @@ impl<'a> ser::SerializeStructVariant for StructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        serialize_field_into_node(&mut self.node, key, value)
+        serialize_field_into_node(&mut self.node, &mut self.indexed, key, value)
     }
 
-    fn end(self) -> Result<Self::Ok, Self::Error> {
+    fn end(mut self) -> Result<Self::Ok, Self::Error> {
+        self.indexed.arrange(&mut self.node);
         self.parent_nodes.push(self.node);
         Ok(())
     }
@@ -457,6 +460,7 @@ fn serialize_value_into_node<T: ?Sized + Serialize>(
 /// Serializes a struct field into the node of its struct.
 fn serialize_field_into_node<T: ?Sized + Serialize>(
     node: &mut KdlNode,
+    indexed: &mut IndexedArgs,
     key: &'static str,
     value: &T,
 ) -> Result<(), Error> {
@@ -464,16 +468,13 @@ fn serialize_field_into_node<T: ?Sized + Serialize>(
         let kdl_val = to_kdl_value(value)?;
         node.entries_mut()
             .push(KdlEntry::new_prop(attr_name, kdl_val));
-    } else if key == "#args" {
-        let mut ser = ArgsSerializer { node: node };
-        value.serialize(&mut ser)?;
-    } else if key == "#rest" {
-        // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-        let mut ser = ArgsSerializer { node: node };
+    } else if key == "#args" || key == "#rest" {
+        let mut ser = ArgsSerializer { node };
         value.serialize(&mut ser)?;
-    } else if key.starts_with("#") {
-        // TODO(@zkat): How do we get the ordering here?... This will just
-        // insert stuff as we discover it.
+    } else if let Some(index) = key.strip_prefix('#') {
+        if let Ok(index) = index.parse() {
+            indexed.add(node, index);
+        }
         let kdl_val = to_kdl_value(value)?;
         node.entries_mut().push(KdlEntry::new(kdl_val));
     } else {
@@ -487,6 +488,42 @@ fn serialize_field_into_node<T: ?Sized + Serialize>(
     Ok(())
 }
 
+/// The arguments of a node that come from fields with an index (`#0`, `#1`...).
+#[derive(Default)]
+struct IndexedArgs(Vec<(usize, usize)>);
+
+impl IndexedArgs {
+    /// The next argument added to `node` is the one with this index.
+    fn add(&mut self, node: &KdlNode, index: usize) {
+        let pos = node.iter().filter(|e| e.name().is_none()).count();
+        self.0.push((index, pos));
+    }
+
+    /// Moves the arguments that have an index where they belong, whatever the
+    /// order of the fields. The others fill the places in between.
+    fn arrange(mut self, node: &mut KdlNode) {
+        self.0.sort_unstable();
+        let mut places: Vec<&mut KdlEntry> =
+            node.iter_mut().filter(|e| e.name().is_none()).collect();
+        let mut others = (0..places.len())
+            .filter(|pos| self.0.iter().all(|(_, p)| p != pos))
+            .peekable();
+        let mut indexed = self.0.iter().copied().peekable();
+        let mut args = Vec::with_capacity(places.len());
+        for place in 0..places.len() {
+            let pos = match indexed.next_if(|(index, _)| *index <= place || others.peek().is_none())
+            {
+                Some((_, pos)) => Some(pos),
+                None => others.next(),
+            };
+            args.extend(pos.map(|pos| places[pos].clone()));
+        }
+        for (place, arg) in places.iter_mut().zip(args) {
+            **place = arg;
+        }
+    }
+}
+
 /// Serializer that writes into a KdlNode.
 struct NodeValueSerializer<'a> {
     node: &'a mut KdlNode,
@@ -660,6 +697,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(NodeChildMapSerializer {
             node: self.node,
+            indexed: IndexedArgs::default(),
             current_key: None,
         })
     }
@@ -671,6 +709,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     ) -> Result<Self::SerializeStruct, Self::Error> {
         Ok(NodeChildMapSerializer {
             node: self.node,
+            indexed: IndexedArgs::default(),
             current_key: None,
         })
     }
@@ -684,6 +723,7 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(NodeChildStructVariantSerializer {
             parent: self.node,
+            indexed: IndexedArgs::default(),
             variant,
             children: KdlDocument::new(),
         })
@@ -765,6 +805,7 @@ impl<'a> ser::SerializeTupleVariant for NodeChildSeqSerializer<'a> {
 
 struct NodeChildMapSerializer<'a> {
     node: &'a mut KdlNode,
+    indexed: IndexedArgs,
     current_key: Option<String>,
 }
 
@@ -803,16 +844,18 @@ impl<'a> ser::SerializeStruct for NodeChildMapSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        serialize_field_into_node(self.node, key, value)
+        serialize_field_into_node(self.node, &mut self.indexed, key, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        self.indexed.arrange(self.node);
         Ok(())
     }
 }
 
 struct NodeChildStructVariantSerializer<'a> {
     parent: &'a mut KdlNode,
+    indexed: IndexedArgs,
     variant: &'static str,
     children: KdlDocument,
 }
@@ -826,25 +869,10 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        let mut node = KdlNode::new(key);
-        if let Some(attr_name) = key.strip_prefix("#@") {
-            let kdl_val = to_kdl_value(value)?;
-            self.parent
-                .entries_mut()
-                .push(KdlEntry::new_prop(attr_name, kdl_val));
-        } else if key == "#args" {
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key == "#rest" {
-            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
-            let mut ser = ArgsSerializer { node: &mut node };
-            value.serialize(&mut ser)?;
-        } else if key.starts_with("#") {
-            // TODO(@zkat): How do we get the ordering here?... This will just
-            // insert stuff as we discover it.
-            let kdl_val = to_kdl_value(value)?;
-            self.parent.entries_mut().push(KdlEntry::new(kdl_val));
+        if key.starts_with('#') {
+            serialize_field_into_node(self.parent, &mut self.indexed, key, value)?;
         } else {
+            let mut node = KdlNode::new(key);
             if serialize_value_into_node(&mut node, value)? {
                 self.children.nodes_mut().push(node);
             }
@@ -853,6 +881,7 @@ impl<'a> ser::SerializeStructVariant for NodeChildStructVariantSerializer<'a> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        self.indexed.arrange(self.parent);
         let mut node = KdlNode::new(self.variant);
         node.set_children(self.children);
         let parent_children = self.parent.ensure_children();
-- 
2.43.0


From 6be921eb6b452915558ff38417e0ba7c66659727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 31/47] fix: deserialize the last of several properties of one
 name

They were a "duplicate field" error.
---
 src/de.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 83df6bf..4bc877d 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1183,9 +1183,17 @@ impl<'a> NodeMapAccess<'a> {
         }
 
         let mut used_names = Vec::new();
-        for prop in node.entries().iter().filter(|e| e.name().is_some()) {
-            // SAFETY: we just filtered for things with names.
-            let name = prop.name().unwrap().value();
+        // The rightmost property of a name is the one that counts.
+        let mut prop_names = std::collections::HashSet::new();
+        let mut props: Vec<_> = node
+            .entries()
+            .iter()
+            .rev()
+            .filter_map(|e| Some((e.name()?.value(), e)))
+            .filter(|(name, _)| prop_names.insert(*name))
+            .collect();
+        props.reverse();
+        for (name, prop) in props {
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
-- 
2.43.0


From 483465eecb527228bc48d133a9ab61d73938e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 32/47] fix: offer a struct only the special keys it asks for

A property read through `#@name`, and type annotations of arguments, were
also offered under names that the struct may not have, or has for a child.
---
 src/de.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 4bc877d..9ac0302 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1165,7 +1165,9 @@ impl<'a> NodeMapAccess<'a> {
                 }
                 let idx_name = format!("#{i}");
                 let ty_name = format!("{idx_name}#type");
-                if let Some(ty) = arg.ty() {
+                if let Some(ty) = arg.ty()
+                    && fields.contains(&ty_name.as_ref())
+                {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
                 if fields.contains(&idx_name.as_ref()) {
@@ -1197,14 +1199,15 @@ impl<'a> NodeMapAccess<'a> {
             if let Some(fields) = fields {
                 let hash_name = format!("#@{name}");
                 let ty_name = format!("{hash_name}#type");
-                if fields.contains(&hash_name.as_ref()) {
-                    entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
-                }
                 if let Some(ty) = prop.ty()
                     && fields.contains(&ty_name.as_ref())
                 {
                     entries.push((ty_name.into(), NodeMapValue::Ident(ty)));
                 }
+                if fields.contains(&hash_name.as_ref()) {
+                    entries.push((hash_name.into(), NodeMapValue::Arg(prop)));
+                    continue;
+                }
             }
             entries.push((name.into(), NodeMapValue::Arg(prop)));
             used_names.push(name);
-- 
2.43.0


From 9ee40edd2665a79cb180455ab2d8fdc63090bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 33/47] fix: deserialize repeated nodes into newtypes and
 options

A newtype around a sequence kept only the first of the nodes, and an optional
sequence was an error.
---
 src/de.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 9ac0302..ccf876a 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1081,9 +1081,21 @@ impl<'de, 'a> de::Deserializer<'de> for NodeGroupDeserializer<'a> {
         })
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct tuple
+        bytes byte_buf unit unit_struct tuple
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From e31fbfac2c24c955c9df21aa5e02234419bee9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 34/47] fix: deserialize documents into tuples

They are serialized, like sequences, as one node for each element.
---
 src/de.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index ccf876a..a817313 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -593,6 +593,23 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         })
     }
 
+    fn deserialize_tuple<V: Visitor<'de>>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
+    fn deserialize_tuple_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        self.deserialize_seq(visitor)
+    }
+
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         if self.doc.nodes().is_empty() {
             visitor.visit_none()
@@ -648,8 +665,7 @@ impl<'de, 'a> de::Deserializer<'de> for DocumentDeserializer<'a> {
         i64 i128 u8 u16
         u32 u64 u128 f32
         f64 char str string
-        bytes byte_buf tuple
-        tuple_struct identifier ignored_any
+        bytes byte_buf identifier ignored_any
     }
 }
 
-- 
2.43.0


From cb57d75cc9ffc2dccc31ad0f533350c81342cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 35/47] fix: deserialize struct variants like structs

Renames like `#0` and `#@name` and missing flags did not work in them.
---
 src/de.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index a817313..734df15 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1470,14 +1470,16 @@ impl<'de, 'a> de::VariantAccess<'de> for NodeVariantAccess<'a> {
 
     fn struct_variant<V: Visitor<'de>>(
         self,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error> {
-        de::Deserializer::deserialize_map(
+        de::Deserializer::deserialize_struct(
             NodeDeserializer {
                 node: self.node,
                 input: self.input,
             },
+            "",
+            fields,
             visitor,
         )
     }
-- 
2.43.0


From 7fae4af2c9caa6199b4edec8ef261359dc532671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 36/47] fix: deserialize missing flags and options inside
 newtypes

---
 src/de.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 734df15..60f4a9c 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1392,9 +1392,17 @@ impl<'de> Deserializer<'de> for OmittedChildDeserializer {
         visitor.visit_none()
     }
 
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error> {
+        visitor.visit_newtype_struct(self)
+    }
+
     serde::forward_to_deserialize_any! {
         i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf unit unit_struct tuple newtype_struct seq
+        bytes byte_buf unit unit_struct tuple seq
         tuple_struct map struct enum identifier ignored_any
     }
 }
-- 
2.43.0


From ef86b4c8cad8a90022b6ce336357d3a9a27724b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 37/47] fix: deserialize optional type annotations

---
 src/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 60f4a9c..2ecd43e 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -426,6 +426,10 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
         self.annotate(visitor.visit_str(self.ident.value()))
     }
 
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        visitor.visit_some(self)
+    }
+
     fn deserialize_newtype_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
@@ -446,7 +450,7 @@ impl<'de, 'a> de::Deserializer<'de> for IdentDeserializer<'a> {
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
         bytes byte_buf unit unit_struct seq tuple
-        tuple_struct map struct option identifier ignored_any
+        tuple_struct map struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 80e5e4480699d3474dd6c731b5af5068e5b0a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 38/47] fix: kdl-lsp counts lines as the LSP does

---
 tools/kdl-lsp/src/main.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 539061c..5d324e6 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -166,17 +166,36 @@ fn byte_to_position(byte_idx: usize, rope: &Rope) -> Position {
     // Clamp the byte position to the end of the buffer. Just in case.
     let byte_idx = byte_idx.min(rope.len_bytes());
     // Get the correct line for that byte offset
-    let line_idx = rope.byte_to_line(byte_idx);
+    let (line_idx, line_start) = byte_to_line(byte_idx, rope);
     // Calculate the correct UTF-16 code unit.
     // The LSP doesn't use characters for columns, but instead for some reason they chose to use
     // UTF-16 code units.
     // If not not explicitly handled as such, passing a UTF-8 char column position would result
     // in a shift of one char backwards per prior 4-byte UTF-16 character in the current line.
     let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
-        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
+        - rope.char_to_utf16_cu(rope.byte_to_char(line_start));
     Position::new(line_idx as u32, col_idx as u32)
 }
 
+/// Gets the line that a byte offset is on, and the byte offset that line starts at.
+///
+/// Ropey counts every line break of Unicode, but lines of the LSP only end in LF, CRLF, or CR.
+fn byte_to_line(byte_idx: usize, rope: &Rope) -> (usize, usize) {
+    let (mut line_idx, mut line_start) = (0, 0);
+    for (idx, byte) in rope.bytes().enumerate().take(byte_idx) {
+        let ends = match byte {
+            b'\n' => true,
+            b'\r' => idx + 1 == rope.len_bytes() || rope.byte(idx + 1) != b'\n',
+            _ => false,
+        };
+        if ends {
+            line_idx += 1;
+            line_start = idx + 1;
+        }
+    }
+    (line_idx, line_start)
+}
+
 fn to_lsp_sev(sev: miette::Severity) -> DiagnosticSeverity {
     match sev {
         miette::Severity::Advice => DiagnosticSeverity::HINT,
-- 
2.43.0


From adaf609fbb8afe86f3921856b1612bd63ba65bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 39/47] fix: kdl-lsp takes the last of several changes, and
 none

---
 tools/kdl-lsp/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/kdl-lsp/src/main.rs b/tools/kdl-lsp/src/main.rs
index 5d324e6..1d1c6b4 100644
--- a/tools/kdl-lsp/src/main.rs
+++ b/tools/kdl-lsp/src/main.rs
@@ -82,8 +82,10 @@ impl LanguageServer for Backend {
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        self.on_change(params.text_document.uri, &params.content_changes[0].text)
-            .await;
+        // Each change is the full text, so the last one counts.
+        if let Some(change) = params.content_changes.last() {
+            self.on_change(params.text_document.uri, &change.text).await;
+        }
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-- 
2.43.0


From 85445a49e649374a0c4817e0fc54e33fee2c4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 40/47] fix: keep an added newline apart from the CR of a line
 continuation

---
 src/document.rs |  4 ++++
 src/node.rs     | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 0fc1fc0..7d0a721 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -561,6 +561,10 @@ impl KdlDocument {
             let is_last = i + 1 == self.nodes.len()
                 && self.format().is_none_or(|fmt| fmt.trailing.is_empty());
             if node.format().is_none() || (!is_last && !node.is_terminated()) {
+                if node.ends_in_cr() {
+                    // These two would be a single newline.
+                    writeln!(f)?;
+                }
                 writeln!(f)?;
             }
         }
diff --git a/src/node.rs b/src/node.rs
index feb4dff..41e17d3 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -863,6 +863,20 @@ impl KdlNode {
         })
     }
 
+    /// Whether a node that has not been terminated ends in the lone CR of a line
+    /// continuation.
+    pub(crate) fn ends_in_cr(&self) -> bool {
+        let before_terminator = self.format().map_or("", |fmt| &fmt.before_terminator);
+        if before_terminator.is_empty() && self.children.is_none() {
+            self.entries
+                .last()
+                .and_then(|entry| entry.format())
+                .is_some_and(|fmt| fmt.trailing.ends_with('\r'))
+        } else {
+            before_terminator.ends_with('\r')
+        }
+    }
+
     pub(crate) fn stringify(
         &self,
         f: &mut std::fmt::Formatter<'_>,
-- 
2.43.0


From e567228164d5b8ba3a60041542e53d6cd2dc1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 41/47] fix: autoformat keeps the line that ends a slashdashed
 node after a long continuation

---
 src/fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 85f69da..69b697f 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -142,7 +142,8 @@ pub(crate) fn autoformat_lines(decor: &mut String, config: &FormatConfig<'_>) {
                 // This line ends a slashdashed node.
                 writeln!(result).unwrap();
             }
-            maybe_continued = has_slashdash && trimmed.contains('\\');
+            // (the continuation may go on after a comment of several lines)
+            maybe_continued |= has_slashdash && trimmed.contains('\\');
         }
     }
     *decor = result;
-- 
2.43.0


From 3dab7bd76d9f7a519db5469aa775cb6d01e2a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 42/47] fix: serialize 128-bit integers, which KDL and the
 deserializer have

---
 src/se.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/se.rs b/src/se.rs
index 9029d52..ccec4ba 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -131,6 +131,12 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
             .push(value_node("-", KdlValue::Integer(v as i128)));
         Ok(())
     }
+    fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
+        self.doc
+            .nodes_mut()
+            .push(value_node("-", KdlValue::Integer(v)));
+        Ok(())
+    }
 
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         self.serialize_u64(v as u64)
@@ -147,6 +153,9 @@ impl<'a> ser::Serializer for &'a mut DocumentSerializer {
             .push(value_node("-", KdlValue::Integer(v as i128)));
         Ok(())
     }
+    fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
+        self.serialize_i128(i128::try_from(v).map_err(ser::Error::custom)?)
+    }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
         self.serialize_f64(v as f64)
@@ -564,6 +573,12 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
             .push(KdlEntry::new(KdlValue::Integer(v as i128)));
         Ok(())
     }
+    fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
+        self.node
+            .entries_mut()
+            .push(KdlEntry::new(KdlValue::Integer(v)));
+        Ok(())
+    }
 
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         self.serialize_u64(v as u64)
@@ -580,6 +595,9 @@ impl<'a> ser::Serializer for &'a mut NodeValueSerializer<'a> {
             .push(KdlEntry::new(KdlValue::Integer(v as i128)));
         Ok(())
     }
+    fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
+        self.serialize_i128(i128::try_from(v).map_err(ser::Error::custom)?)
+    }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
         self.serialize_f64(v as f64)
@@ -937,6 +955,9 @@ impl ser::Serializer for KeySerializer {
     fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
         Ok(v.to_string())
     }
+    fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
+        Ok(v.to_string())
+    }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         Ok(v.to_string())
     }
@@ -949,6 +970,9 @@ impl ser::Serializer for KeySerializer {
     fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
         Ok(v.to_string())
     }
+    fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
+        Ok(v.to_string())
+    }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
         Ok(v.to_string())
@@ -1112,6 +1136,9 @@ impl ser::Serializer for KdlValueSerializer {
     fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
         Ok(KdlValue::Integer(v as i128))
     }
+    fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
+        Ok(KdlValue::Integer(v))
+    }
 
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         Ok(KdlValue::Integer(v as i128))
@@ -1125,6 +1152,9 @@ impl ser::Serializer for KdlValueSerializer {
     fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
         Ok(KdlValue::Integer(v as i128))
     }
+    fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
+        self.serialize_i128(i128::try_from(v).map_err(ser::Error::custom)?)
+    }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
         Ok(KdlValue::Float(v as f64))
@@ -1307,6 +1337,12 @@ impl<'a> ser::Serializer for &'a mut ArgsSerializer<'a> {
             .push(KdlEntry::new(KdlValue::Integer(v as i128)));
         Ok(())
     }
+    fn serialize_i128(self, v: i128) -> Result<Self::Ok, Self::Error> {
+        self.node
+            .entries_mut()
+            .push(KdlEntry::new(KdlValue::Integer(v)));
+        Ok(())
+    }
 
     fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
         self.serialize_u64(v as u64)
@@ -1323,6 +1359,9 @@ impl<'a> ser::Serializer for &'a mut ArgsSerializer<'a> {
             .push(KdlEntry::new(KdlValue::Integer(v as i128)));
         Ok(())
     }
+    fn serialize_u128(self, v: u128) -> Result<Self::Ok, Self::Error> {
+        self.serialize_i128(i128::try_from(v).map_err(ser::Error::custom)?)
+    }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
         self.serialize_f64(v as f64)
-- 
2.43.0


From baf3a2fc554e4535fe1f4b2345405c43b7fa511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 43/47] fix: finish comments and line continuations left open
 by the end of input

A node or document parsed on its own may end in a line comment or a line
continuation that only the end of the input finishes. Printing a node,
terminator or closing brace after it made that part of the comment.
---
 src/document.rs  | 33 ++++++++++++++++++++++++++++-----
 src/node.rs      | 44 ++++++++++++++++++++++++++++++++++----------
 src/v2_parser.rs | 30 +++++++++++++++++++++++++++++-
 3 files changed, 91 insertions(+), 16 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 7d0a721..734344a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -550,9 +550,18 @@ impl KdlDocument {
     ) -> std::fmt::Result {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
             write!(f, "{leading}")?;
-            // A slashdashed node has to end before the next node starts.
-            if leading.contains("/-") && !self.nodes.is_empty() {
-                writeln!(f)?;
+            if !self.nodes.is_empty() {
+                // A comment or slashdashed node has to end before the next
+                // node starts.
+                if leading.contains("/-") || crate::v2_parser::is_open_space(leading) {
+                    writeln!(f)?;
+                }
+                // (a line continuation swallows a newline)
+                if leading.contains('\\')
+                    && crate::v2_parser::is_open_space(&format!("{leading}\n"))
+                {
+                    writeln!(f)?;
+                }
             }
         }
         for (i, node) in self.nodes.iter().enumerate() {
@@ -561,8 +570,7 @@ impl KdlDocument {
             let is_last = i + 1 == self.nodes.len()
                 && self.format().is_none_or(|fmt| fmt.trailing.is_empty());
             if node.format().is_none() || (!is_last && !node.is_terminated()) {
-                if node.ends_in_cr() {
-                    // These two would be a single newline.
+                if node.takes_newline() {
                     writeln!(f)?;
                 }
                 writeln!(f)?;
@@ -573,6 +581,21 @@ impl KdlDocument {
         }
         Ok(())
     }
+
+    /// Whether this ends in a comment or line continuation that only the end
+    /// of the input would finish.
+    pub(crate) fn is_open(&self) -> bool {
+        let (leading, trailing) = self
+            .format()
+            .map_or(("", ""), |fmt| (&fmt.leading, &fmt.trailing));
+        if !trailing.is_empty() {
+            crate::v2_parser::is_open_block(trailing)
+        } else if let Some(node) = self.nodes.last() {
+            node.is_open()
+        } else {
+            crate::v2_parser::is_open_block(leading)
+        }
+    }
 }
 
 impl IntoIterator for KdlDocument {
diff --git a/src/node.rs b/src/node.rs
index 41e17d3..2bbe0f8 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -863,20 +863,38 @@ impl KdlNode {
         })
     }
 
-    /// Whether a node that has not been terminated ends in the lone CR of a line
-    /// continuation.
-    pub(crate) fn ends_in_cr(&self) -> bool {
+    /// The decoration between this node's last entry or child block and its
+    /// terminator.
+    fn before_terminator(&self) -> &str {
         let before_terminator = self.format().map_or("", |fmt| &fmt.before_terminator);
-        if before_terminator.is_empty() && self.children.is_none() {
-            self.entries
-                .last()
-                .and_then(|entry| entry.format())
-                .is_some_and(|fmt| fmt.trailing.ends_with('\r'))
-        } else {
-            before_terminator.ends_with('\r')
+        match self.entries.last().and_then(|entry| entry.format()) {
+            Some(fmt) if before_terminator.is_empty() && self.children.is_none() => &fmt.trailing,
+            _ => before_terminator,
         }
     }
 
+    /// Whether a newline added to this (unterminated) node would not end it,
+    /// but be part of a CRLF or a line continuation.
+    pub(crate) fn takes_newline(&self) -> bool {
+        let before_terminator = self.before_terminator();
+        before_terminator.ends_with('\r') || v2_parser::is_open_escline(before_terminator)
+    }
+
+    /// Whether this ends in a comment or line continuation that only the end
+    /// of the input would finish.
+    pub(crate) fn is_open(&self) -> bool {
+        self.format().is_some_and(|fmt| {
+            let text = format!(
+                "{}{}{}{}",
+                if self.children.is_some() { "a {}" } else { "a" },
+                self.before_terminator(),
+                fmt.terminator,
+                fmt.trailing
+            );
+            v2_parser::is_open_block(&text)
+        })
+    }
+
     pub(crate) fn stringify(
         &self,
         f: &mut std::fmt::Formatter<'_>,
@@ -915,6 +933,9 @@ impl KdlNode {
             }) = self.format()
             {
                 write!(f, "{before_children}")?;
+                if v2_parser::is_open_escline(before_children) {
+                    writeln!(f)?;
+                }
             } else if space_before_children {
                 write!(f, " ")?;
             }
@@ -923,6 +944,9 @@ impl KdlNode {
                 writeln!(f)?;
             }
             children.stringify(f, indent + 4)?;
+            if children.is_open() {
+                writeln!(f)?;
+            }
             if children.format().is_none() {
                 write!(f, "{:indent$}", "", indent = indent)?;
             }
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 987f7c9..2c86a74 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -736,7 +736,35 @@ fn before_node_children(input: &mut Input<'_>) -> PResult<()> {
 /// Whether what comes before a node's terminator ends in a line continuation
 /// that still lacks its newline.
 pub(crate) fn is_open_escline(before_terminator: &str) -> bool {
-    try_parse(before_node_children, &format!("{before_terminator}\n")).is_ok()
+    before_terminator.contains('\\')
+        && try_parse(before_node_children, &format!("{before_terminator}\n")).is_ok()
+}
+
+/// Whether the last line of a piece of text can hold a comment or line
+/// continuation.
+fn may_be_open(text: &str) -> bool {
+    let last_line = text
+        .rsplit(|c| NEWLINES.iter().any(|nl| nl.contains(c)))
+        .next()
+        .unwrap_or("");
+    text.ends_with(|c| NEWLINES.iter().any(|nl| nl.contains(c)))
+        || last_line.contains("//")
+        || last_line.contains('\\')
+}
+
+/// Whether a node after this space, comments and slashdashed nodes would be
+/// part of them.
+pub(crate) fn is_open_space(leading: &str) -> bool {
+    may_be_open(leading)
+        && try_parse(document, &format!("{leading}a"))
+            .map(|doc: KdlDocument| doc.nodes().len() != 1)
+            .unwrap_or(true)
+}
+
+/// Whether a child block with this at its end could not be closed, because it
+/// ends in an unfinished comment or line continuation.
+pub(crate) fn is_open_block(end: &str) -> bool {
+    may_be_open(end) && try_parse(node_children, &format!("{{{end}}}")).is_err()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1534fe309156ff298739b4590f91ec7a233aee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 44/47] fix: continue the lines of entries that were parsed
 with newlines around them

An entry parsed on its own may have newlines and comments around it. These
ended the node it was put into, or swallowed what came after.
---
 src/entry.rs     | 14 +++++++++++---
 src/node.rs      | 44 ++++++++++++++++++++++++++++++++++++++------
 src/v2_parser.rs | 23 ++++++++++++++++++++++-
 3 files changed, 71 insertions(+), 10 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index 3906810..15e4ba5 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -408,6 +408,17 @@ impl Display for KdlEntry {
         if let Some(KdlEntryFormat { leading, .. }) = &self.format {
             write!(f, "{leading}")?;
         }
+        self.stringify(f)?;
+        if let Some(KdlEntryFormat { trailing, .. }) = &self.format {
+            write!(f, "{trailing}")?;
+        }
+        Ok(())
+    }
+}
+
+impl KdlEntry {
+    /// Writes the entry without anything that may come before or after it.
+    pub(crate) fn stringify(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Some(name) = &self.name {
             write!(f, "{name}")?;
             if let Some(KdlEntryFormat {
@@ -442,9 +453,6 @@ impl Display for KdlEntry {
         } else {
             write!(f, "{}", self.value)?;
         }
-        if let Some(KdlEntryFormat { trailing, .. }) = &self.format {
-            write!(f, "{trailing}")?;
-        }
         Ok(())
     }
 }
diff --git a/src/node.rs b/src/node.rs
index 2bbe0f8..7205aa4 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -1,4 +1,5 @@
 use std::{
+    borrow::Cow,
     cmp::Ordering,
     fmt::Display,
     ops::{Index, IndexMut},
@@ -865,19 +866,44 @@ impl KdlNode {
 
     /// The decoration between this node's last entry or child block and its
     /// terminator.
-    fn before_terminator(&self) -> &str {
+    fn before_terminator(&self) -> Cow<'_, str> {
         let before_terminator = self.format().map_or("", |fmt| &fmt.before_terminator);
         match self.entries.last().and_then(|entry| entry.format()) {
-            Some(fmt) if before_terminator.is_empty() && self.children.is_none() => &fmt.trailing,
-            _ => before_terminator,
+            Some(fmt) if before_terminator.is_empty() && self.children.is_none() => {
+                self.entry_trailing(self.entries.len() - 1, &fmt.trailing)
+            }
+            _ => before_terminator.into(),
         }
     }
 
+    /// What to print after an entry. An entry parsed on its own may have
+    /// newlines and comments around it, which have to be continued if they
+    /// aren't at the end of this node.
+    fn entry_trailing<'a>(&self, index: usize, trailing: &'a str) -> Cow<'a, str> {
+        let (before_terminator, terminator) = self.format().map_or(("", ""), |fmt| {
+            (&fmt.before_terminator[..], &fmt.terminator[..])
+        });
+        let is_last = index + 1 == self.entries.len()
+            && self.children.is_none()
+            && before_terminator.is_empty();
+        if is_last && terminator != ";" && !trailing.contains('\\') {
+            return trailing.into();
+        }
+        let mut trailing = v2_parser::continue_lines(trailing);
+        if !(is_last && terminator.is_empty())
+            && (v2_parser::is_open_escline(&trailing)
+                || trailing.ends_with('\r') && terminator.starts_with('\n'))
+        {
+            trailing.to_mut().push('\n');
+        }
+        trailing
+    }
+
     /// Whether a newline added to this (unterminated) node would not end it,
     /// but be part of a CRLF or a line continuation.
     pub(crate) fn takes_newline(&self) -> bool {
         let before_terminator = self.before_terminator();
-        before_terminator.ends_with('\r') || v2_parser::is_open_escline(before_terminator)
+        before_terminator.ends_with('\r') || v2_parser::is_open_escline(&before_terminator)
     }
 
     /// Whether this ends in a comment or line continuation that only the end
@@ -920,11 +946,17 @@ impl KdlNode {
         }
         write!(f, "{}", self.name)?;
         let mut space_before_children = true;
-        for entry in &self.entries {
+        for (i, entry) in self.entries.iter().enumerate() {
             if entry.format().is_none_or(|fmt| fmt.leading.is_empty()) {
                 write!(f, " ")?;
             }
-            write!(f, "{entry}")?;
+            if let Some(fmt) = entry.format() {
+                write!(f, "{}", v2_parser::continue_lines(&fmt.leading))?;
+                entry.stringify(f)?;
+                write!(f, "{}", self.entry_trailing(i, &fmt.trailing))?;
+            } else {
+                write!(f, "{entry}")?;
+            }
             space_before_children = entry.format().is_none();
         }
         if let Some(children) = &self.children {
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 2c86a74..0327522 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -1,4 +1,5 @@
 use std::{
+    borrow::Cow,
     num::{ParseFloatError, ParseIntError},
     sync::Arc,
 };
@@ -15,7 +16,7 @@ use winnow::{
     error::{AddContext, ErrMode, FromExternalError, FromRecoverableError, ParserError},
     prelude::*,
     stream::{AsChar, Location, Recover, Recoverable, Stream},
-    token::{any, none_of, one_of, take_while},
+    token::{any, none_of, one_of, rest, take_while},
 };
 
 use crate::{
@@ -740,6 +741,26 @@ pub(crate) fn is_open_escline(before_terminator: &str) -> bool {
         && try_parse(before_node_children, &format!("{before_terminator}\n")).is_ok()
 }
 
+/// Puts line continuations before newlines and comments that would end a node.
+pub(crate) fn continue_lines(space: &str) -> Cow<'_, str> {
+    if !space.contains("//") && !space.contains(|c| NEWLINES.iter().any(|nl| nl.contains(c))) {
+        return space.into();
+    }
+    let piece = alt((
+        (wss, escline, wss).take().map(String::from),
+        alt((newline, single_line_comment))
+            .take()
+            .map(|line| format!("\\{line}")),
+        wsp.take().map(String::from),
+    ));
+    try_parse(
+        (repeat(0.., piece), rest)
+            .map(|(pieces, rest): (Vec<String>, &str)| pieces.concat() + rest),
+        space,
+    )
+    .map_or(space.into(), Cow::from)
+}
+
 /// Whether the last line of a piece of text can hold a comment or line
 /// continuation.
 fn may_be_open(text: &str) -> bool {
-- 
2.43.0


From 444fff89d578995eb98c95b19dd0efdeee71818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 45/47] fix: end open comments after a terminator, and keep
 byte order marks out of child blocks

---
 src/document.rs  |  6 +++++-
 src/node.rs      | 28 ++++++++++++++++------------
 src/v2_parser.rs | 14 ++++++--------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 734344a..7c5e59b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -549,7 +549,11 @@ impl KdlDocument {
         indent: usize,
     ) -> std::fmt::Result {
         if let Some(KdlDocumentFormat { leading, .. }) = self.format() {
-            write!(f, "{leading}")?;
+            match leading.strip_prefix('\u{FEFF}') {
+                // Child blocks can't have a byte order mark.
+                Some(leading) if indent > 0 => write!(f, "{leading}")?,
+                _ => write!(f, "{leading}")?,
+            }
             if !self.nodes.is_empty() {
                 // A comment or slashdashed node has to end before the next
                 // node starts.
diff --git a/src/node.rs b/src/node.rs
index 7205aa4..392a5c1 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -854,13 +854,11 @@ impl KdlNode {
     /// something else may follow it.
     pub(crate) fn is_terminated(&self) -> bool {
         self.format().is_some_and(|fmt| {
-            fmt.terminator == ";"
-                || fmt
-                    .terminator
-                    .ends_with(|c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
-                || fmt
-                    .trailing
-                    .contains(|c| c == ';' || v2_parser::NEWLINES.iter().any(|nl| nl.contains(c)))
+            let is_newline = |c| v2_parser::NEWLINES.iter().any(|nl| nl.contains(c));
+            (fmt.terminator == ";"
+                || fmt.terminator.ends_with(is_newline)
+                || fmt.trailing.contains(|c| c == ';' || is_newline(c)))
+                && !v2_parser::is_open_space(&fmt.trailing)
         })
     }
 
@@ -880,19 +878,25 @@ impl KdlNode {
     /// newlines and comments around it, which have to be continued if they
     /// aren't at the end of this node.
     fn entry_trailing<'a>(&self, index: usize, trailing: &'a str) -> Cow<'a, str> {
-        let (before_terminator, terminator) = self.format().map_or(("", ""), |fmt| {
-            (&fmt.before_terminator[..], &fmt.terminator[..])
+        if trailing.is_empty() {
+            return trailing.into();
+        }
+        let (before_terminator, end) = self.format().map_or(("", String::new()), |fmt| {
+            (
+                &fmt.before_terminator[..],
+                format!("{}{}", fmt.terminator, fmt.trailing),
+            )
         });
         let is_last = index + 1 == self.entries.len()
             && self.children.is_none()
             && before_terminator.is_empty();
-        if is_last && terminator != ";" && !trailing.contains('\\') {
+        if is_last && !end.contains(';') && !trailing.contains('\\') {
             return trailing.into();
         }
         let mut trailing = v2_parser::continue_lines(trailing);
-        if !(is_last && terminator.is_empty())
+        if !(is_last && end.is_empty())
             && (v2_parser::is_open_escline(&trailing)
-                || trailing.ends_with('\r') && terminator.starts_with('\n'))
+                || trailing.ends_with('\r') && end.starts_with('\n'))
         {
             trailing.to_mut().push('\n');
         }
diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index 0327522..fc9deb8 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -738,6 +738,7 @@ fn before_node_children(input: &mut Input<'_>) -> PResult<()> {
 /// that still lacks its newline.
 pub(crate) fn is_open_escline(before_terminator: &str) -> bool {
     before_terminator.contains('\\')
+        && !before_terminator.ends_with('\r')
         && try_parse(before_node_children, &format!("{before_terminator}\n")).is_ok()
 }
 
@@ -761,16 +762,13 @@ pub(crate) fn continue_lines(space: &str) -> Cow<'_, str> {
     .map_or(space.into(), Cow::from)
 }
 
-/// Whether the last line of a piece of text can hold a comment or line
-/// continuation.
+/// Whether a piece of text may end in a comment or line continuation.
 fn may_be_open(text: &str) -> bool {
-    let last_line = text
-        .rsplit(|c| NEWLINES.iter().any(|nl| nl.contains(c)))
+    let mut lines = text.rsplit(|c| NEWLINES.iter().any(|nl| nl.contains(c)));
+    lines
         .next()
-        .unwrap_or("");
-    text.ends_with(|c| NEWLINES.iter().any(|nl| nl.contains(c)))
-        || last_line.contains("//")
-        || last_line.contains('\\')
+        .is_some_and(|line| line.contains("//") || line.is_empty() && lines.next().is_some())
+        || text.contains('\\')
 }
 
 /// Whether a node after this space, comments and slashdashed nodes would be
-- 
2.43.0


From ce13c1f63157b34fe65d2ceaa20ba776f6ca6b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:42 +0000
Subject: [PATCH 46/47] fix: do not print a document to tell whether a child
 block is empty

An unclosed child block made the parser print the nodes in it, which
parses slashdashed children before the children again: nested blocks
took exponential time.
---
 src/v2_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2_parser.rs b/src/v2_parser.rs
index fc9deb8..d76da87 100644
--- a/src/v2_parser.rs
+++ b/src/v2_parser.rs
@@ -820,7 +820,7 @@ fn node_children(input: &mut Input<'_>) -> PResult<KdlDocument> {
     let _before_open_loc = input.current_token_start();
     "{".parse_next(input)?;
     let _after_open_loc = input.previous_token_end();
-    let ns = trace("child nodes", nodes).parse_next(input)?;
+    let (ns, text) = trace("child nodes", nodes.with_taken()).parse_next(input)?;
     let _after_nodes = input.checkpoint();
     let _after_nodes_loc = input.previous_token_end();
     let close_res: PResult<_> = cut_err("}")
@@ -838,7 +838,7 @@ fn node_children(input: &mut Input<'_>) -> PResult<KdlDocument> {
                     e => return Err(e),
                 };
                 input.record_err(&_before_open, &_before_open, e)?;
-                if !ns.is_empty() {
+                if !text.is_empty() {
                     input.record_err(
                         &_after_nodes,
                         &_after_nodes,
-- 
2.43.0


From d727d7938a5f543f998ce4f9271c8b8d5719a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 47/47] fix: serialize no arguments where the sequence of
 arguments is None

---
 src/se.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/se.rs b/src/se.rs
index ccec4ba..88f5fc2 100644
--- a/src/se.rs
+++ b/src/se.rs
@@ -1391,7 +1391,7 @@ impl<'a> ser::Serializer for &'a mut ArgsSerializer<'a> {
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.node.entries_mut().push(KdlEntry::new(KdlValue::Null));
+        // No arguments at all, which is what is read as `None`.
         Ok(())
     }
 
-- 
2.43.0

