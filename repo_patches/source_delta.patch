From a4f7f7ff2d5904251826d25fa5c7374cff5f2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 01/54] fix: account for the byte length in the size of
 collection prefixes

The length prefix of vectors, maps, sets and arrays counts bytes, but the size
functions calculated it from the element count.
---
 crates/mabo/src/buf/size.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..4ed4776 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -68,12 +68,18 @@ pub const fn size_bytes_bytes(value: &Bytes) -> usize {
     size_u64(value.len() as u64) + value.len()
 }
 
+/// Calculate the full size of a value that is prefixed by its length **in bytes**.
+#[inline]
+const fn size_length_prefixed(size: usize) -> usize {
+    size_u64(size as u64) + size
+}
+
 /// Calculate the size of a Mabo `vec<T>` vector value.
 pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    size_length_prefixed(vec.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +88,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
+    size_length_prefixed(
+        map.iter()
             .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+            .sum(),
+    )
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +100,7 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    size_length_prefixed(set.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +116,7 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    size_length_prefixed(array.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From e82c2e09b2940ce9a1f368ab52f671a504d720b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 02/54] fix: return an error for arrays with missing elements

Decoding an array from data with fewer elements than the definition has
panicked, instead of reporting the insufficient data.
---
 crates/mabo/src/buf/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..e737e73 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -274,7 +274,7 @@ where
     let mut vec = Vec::new();
     let mut r = r.take(len as usize);
 
-    while r.has_remaining() && vec.len() < N {
+    while vec.len() < N {
         vec.push(decode(&mut r)?);
     }
 
-- 
2.43.0


From 61a63804a9c7493206b865176d3a0b1e2393ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 03/54] fix: decode integers that are split over multiple
 buffer chunks

Only the first chunk of the buffer was considered for varint integers, so
decoding from a non-contiguous buffer failed whenever an integer crossed the
boundary of two chunks.
---
 crates/mabo/src/buf/decode.rs | 25 +++++++++++++++++++++++--
 crates/mabo/src/varint.rs     |  2 +-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index e737e73..d084802 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -93,8 +93,29 @@ macro_rules! decode_int {
             /// Will return `Err` if the buffer does not have enough remaining data to read the
             /// value, or the _Varint_ decoding fails due to a missing end marker.
             pub fn [<decode_ $ty>](r: &mut impl Buf) -> Result<$ty> {
-                let (value, consumed) = varint::[<decode_ $ty>](r.chunk())?;
-                r.advance(consumed);
+                const MAX_SIZE: usize = varint::max_size::<$ty>();
+
+                let chunk = r.chunk();
+                if chunk.len() >= MAX_SIZE || chunk.len() == r.remaining() {
+                    let (value, consumed) = varint::[<decode_ $ty>](chunk)?;
+                    r.advance(consumed);
+                    return Ok(value);
+                }
+
+                // The integer might be split over multiple chunks of the buffer.
+                let mut buf = [0; MAX_SIZE];
+                let mut len = 0;
+
+                while len < MAX_SIZE && r.has_remaining() {
+                    buf[len] = r.get_u8();
+                    len += 1;
+
+                    if buf[len - 1] & 0x80 == 0 {
+                        break;
+                    }
+                }
+
+                let (value, _) = varint::[<decode_ $ty>](&buf[..len])?;
                 Ok(value)
             }
         }
diff --git a/crates/mabo/src/varint.rs b/crates/mabo/src/varint.rs
index 7f1e165..3323030 100644
--- a/crates/mabo/src/varint.rs
+++ b/crates/mabo/src/varint.rs
@@ -50,7 +50,7 @@ zigzag!(
 
 /// Calculate the maximum amount of bytes that an integer might require to be encoded as _varint_.
 #[inline]
-const fn max_size<T>() -> usize {
+pub(crate) const fn max_size<T>() -> usize {
     (std::mem::size_of::<T>() * 8).div_ceil(7)
 }
 
-- 
2.43.0


From b358cab939354be4ace5cbdbed7db604d6a96cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 04/54] fix: reject collections of elements that never consume
 any data

Decoding a vector, map or set with a non-zero length and elements that don't
consume any data (like unit structs) looped forever while growing memory.
---
 crates/mabo/src/buf/decode.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index d084802..e12a401 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -53,6 +53,16 @@ macro_rules! ensure_size {
     };
 }
 
+/// Ensure that decoding an element consumed any data, as the end of a collection that is filled with
+/// elements without data (like a unit struct) could never be reached otherwise.
+macro_rules! ensure_progress {
+    ($r:ident, $before:ident) => {
+        if $r.remaining() == $before {
+            return Err(Error::InsufficientData);
+        }
+    };
+}
+
 /// Decode a Mabo `bool` (`true` or `false`) value.
 ///
 /// # Errors
@@ -200,7 +210,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         vec.push(decode(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(vec)
@@ -230,7 +242,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(map)
@@ -255,7 +269,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         set.insert(decode(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(set)
@@ -404,7 +420,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         vec.push(decode(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(NonZero::<Vec<_>>::new(vec).unwrap())
@@ -436,7 +454,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(NonZero::<HashMap<_, _>>::new(map).unwrap())
@@ -463,7 +483,9 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
+        let before = r.remaining();
         set.insert(decode(&mut r)?);
+        ensure_progress!(r, before);
     }
 
     Ok(NonZero::<HashSet<_>>::new(set).unwrap())
-- 
2.43.0


From dda2abec2e44043c57731c04ff0f46d52c76599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 05/54] fix: accept a unit struct at the end of the schema

Without any further character behind the name the fields failed to parse.
---
 crates/mabo-parser/src/parser/fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 358ac26..14c69f5 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -74,9 +74,9 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
     let start = input.checkpoint();
 
     dispatch!(
-        peek(any);
-        '{' => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
-        '(' => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
+        peek(opt(any));
+        Some('{') => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
+        Some('(') => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
         _ => parse_unit.map(|()| Fields::Unit),
     )
     .parse_next(input)
-- 
2.43.0


From 8d639c9a9c392832803a6bf0d03c1d3b7dc5fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 06/54] fix: reject float literals that exceed the value range

They were turned into infinity, which cannot be expressed as literal again.
---
 crates/mabo-parser/src/parser/literals.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index e5e19bb..157b661 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -130,6 +130,7 @@ fn parse_float(input: &mut Input<'_>) -> Result<f64, Cause> {
     )
         .take()
         .parse_to()
+        .verify(|v: &f64| v.is_finite())
         .parse_next(input)
 }
 
-- 
2.43.0


From 75de85799ade2002b663814bf2ec6d833e901f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 07/54] fix: parse the `\0` escape sequence in string literals

The parser looked for an actual null character behind the backslash, so that the
sequence which is used to print the character was rejected.
---
 crates/mabo-parser/src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index 157b661..87ed3a0 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -196,7 +196,7 @@ fn parse_string_escaped_char(input: &mut Input<'_>) -> Result<char, Cause> {
             'b' => 'b'.value('\u{08}'),
             'f' => 'f'.value('\u{0c}'),
             '\\' => '\\'.value('\\'),
-            '\0' => '\0'.value('\0'),
+            '0' => '0'.value('\0'),
             '/' => '/'.value('/'),
             '"' => '"'.value('"'),
             'u' => parse_string_unicode,
-- 
2.43.0


From 77a2150bdc7bc4c675bbb0eb070daa94e2f17d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 08/54] fix: print float literals without a fraction as float

A literal like `1.0` was formatted as `1`, which is an integer literal.
---
 crates/mabo-parser/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index dc29c78..7e0d2aa 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1266,6 +1266,8 @@ impl Display for LiteralValue {
         match *self {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
+            // Always keep the fraction, as the literal turns into an integer otherwise.
+            Self::Float(v) if v.fract() == 0.0 => write!(f, "{v:.1}"),
             Self::Float(v) => v.fmt(f),
             Self::String(ref v) => write!(f, "{v:?}"),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
-- 
2.43.0


From 88d282ab9d1b91298da4733e20db7bb74245a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 09/54] fix: parse lists of elements in linear time

The last element of every list was parsed twice, which added up to exponential
time for nested tuples and type arguments.
---
 crates/mabo-parser/src/parser.rs          | 51 ++++++++---------------
 crates/mabo-parser/src/parser/enums.rs    |  6 +--
 crates/mabo-parser/src/parser/fields.rs   | 12 +-----
 crates/mabo-parser/src/parser/generics.rs | 23 ++++------
 crates/mabo-parser/src/parser/types.rs    | 14 ++-----
 5 files changed, 33 insertions(+), 73 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index df19d26..8eb6700 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -216,52 +216,35 @@ where
     trace("ws", preceded(multispace0, inner))
 }
 
-pub fn punctuate<I, O, P, E, F, G>(mut f: F, mut g: G) -> impl ModalParser<I, Punctuated<O, P>, E>
+pub fn punctuate<I, O, P, E, F, G>(
+    mut item: F,
+    separator: G,
+) -> impl ModalParser<I, Punctuated<O, P>, E>
 where
     I: Stream,
     E: ParserError<I>,
-    F: ModalParser<I, (O, P), E>,
-    G: ModalParser<I, (O, Option<P>), E>,
+    F: ModalParser<I, O, E>,
+    G: ModalParser<I, P, E>,
 {
+    let mut separator = opt(separator);
+
     trace("punctuate", move |i: &mut I| {
         let mut values = Vec::new();
-        let mut start_prev = None;
+        let mut value = item.parse_next(i)?;
 
         loop {
-            let start = i.checkpoint();
-            let len = i.eof_offset();
+            let Some(punct) = separator.parse_next(i)? else {
+                return Ok(Punctuated::new(values, (value, None)));
+            };
 
-            match f.parse_next(i) {
-                Ok((o, range)) => {
-                    if i.eof_offset() == len {
-                        return Err(ErrMode::assert(i, "`repeat` parsers must always consume"));
-                    }
+            let start = i.checkpoint();
 
-                    values.push((o, range));
-                    start_prev = Some(start);
-                }
+            match item.parse_next(i) {
+                Ok(next) => values.push((std::mem::replace(&mut value, next), punct)),
+                // No further value, so this was the optional trailing punctuation.
                 Err(ErrMode::Backtrack(_)) => {
                     i.reset(&start);
-                    let (o, range) = match g.parse_next(i) {
-                        Ok(o) => Ok(o),
-                        // Both parsers failed. Lets undo the last successful action from the first
-                        // parser and redo it with the second one to get the last value.
-                        //
-                        // Technically we could just take the parsed data from the first parser and
-                        // transform it, but there is no guarantee that the parsers are similar
-                        // enough to do this transformation.
-                        Err(ErrMode::Backtrack(e)) => {
-                            if let Some(start) = start_prev {
-                                values.pop();
-                                i.reset(&start);
-                                g.parse_next(i)
-                            } else {
-                                Err(ErrMode::Backtrack(e))
-                            }
-                        }
-                        Err(e) => Err(e),
-                    }?;
-                    return Ok(Punctuated::new(values, (o, range)));
+                    return Ok(Punctuated::new(values, (value, Some(punct))));
                 }
                 Err(e) => return Err(e),
             }
diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index c6d17a6..a6b3228 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -127,11 +127,7 @@ pub(super) fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
 fn parse_variants<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<Variant<'i>>), Cause> {
-    surround(punctuate(
-        (parse_variant, ws(token::Comma::parser())),
-        (parse_variant, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_variant, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 14c69f5..e44a6d4 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -91,21 +91,13 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
 fn parse_named<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<NamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_named_field, ws(token::Comma::parser())),
-        (parse_named_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_named_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unnamed<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Parenthesis, Punctuated<UnnamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_unnamed_field, ws(token::Comma::parser())),
-        (parse_unnamed_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_unnamed_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
diff --git a/crates/mabo-parser/src/parser/generics.rs b/crates/mabo-parser/src/parser/generics.rs
index 6a6c67a..45dbde6 100644
--- a/crates/mabo-parser/src/parser/generics.rs
+++ b/crates/mabo-parser/src/parser/generics.rs
@@ -1,9 +1,7 @@
 use std::ops::Range;
 
 use mabo_derive::{ParserError, ParserErrorCause};
-use winnow::{
-    Parser, ascii::alphanumeric0, combinator::opt, error::ErrMode, stream::Location, token::one_of,
-};
+use winnow::{Parser, ascii::alphanumeric0, error::ErrMode, stream::Location, token::one_of};
 
 use super::{Input, Result, punctuate, surround, ws};
 use crate::{Generics, Name, highlight, token};
@@ -43,18 +41,15 @@ pub enum Cause {
 }
 
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Generics<'i>, ParseError> {
-    surround(punctuate(
-        (ws(parse_name), ws(token::Comma::parser())),
-        (ws(parse_name), opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
-    .map(|(angle, types)| Generics { angle, types })
-    .map_err(|e| {
-        e.map(|cause| ParseError {
-            at: input.current_token_start()..input.current_token_start(),
-            cause,
+    surround(punctuate(ws(parse_name), ws(token::Comma::parser())))
+        .parse_next(input)
+        .map(|(angle, types)| Generics { angle, types })
+        .map_err(|e| {
+            e.map(|cause| ParseError {
+                at: input.current_token_start()..input.current_token_start(),
+                cause,
+            })
         })
-    })
 }
 
 fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index a905dc9..dce70ca 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -163,11 +163,8 @@ fn parse_generic<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
 
 fn parse_tuple<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
     surround(punctuate(
-        (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-        (
-            ws(parse.map_err2(Cause::from)),
-            opt(ws(token::Comma::parser())),
-        ),
+        ws(parse.map_err2(Cause::from)),
+        ws(token::Comma::parser()),
     ))
     .parse_next(input)
     .map(|(paren, types)| DataType::Tuple { paren, types })
@@ -200,11 +197,8 @@ fn parse_external<'i>(input: &mut Input<'i>) -> Result<ExternalType<'i>, Cause>
         .map(Option::unwrap_or_default),
         parse_external_name,
         opt(surround(punctuate(
-            (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-            (
-                ws(parse.map_err2(Cause::from)),
-                opt(ws(token::Comma::parser())),
-            ),
+            ws(parse.map_err2(Cause::from)),
+            ws(token::Comma::parser()),
         ))),
     )
         .parse_next(input)
-- 
2.43.0


From aaaacc9ef28d883029c50287281016b2d1814da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 10/54] fix: accept types that are referenced through an
 imported module

---
 crates/mabo-compiler/src/resolve/mod.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..d04f0a6 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,14 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
-            .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
-                module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                    name: name.get().to_owned(),
-                    path: module.path_to_string(),
-                    used: ty.name.span().into(),
-                })
-            })?
-        };
+        // The first segment is the name of the imported module itself.
+        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
+            module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                name: name.get().to_owned(),
+                path: module.path_to_string(),
+                used: ty.name.span().into(),
+            })
+        })?;
 
         let definition = module
             .types
@@ -598,5 +591,5 @@ pub(crate) fn resolve_type_remotely(
         .into());
     }
 
-    Err(ty.error.into())
+    Ok(())
 }
-- 
2.43.0


From c07308a630621a552f65d819d5800dc4cad6ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 11/54] fix: visit the inner type of non-zero types

---
 crates/mabo-compiler/src/resolve/mod.rs       | 2 +-
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index d04f0a6..ff36f38 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -466,12 +466,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From 3f21dc5cde7ca0a583b8baf9a4a9e1de5dfa707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 12/54] fix: resolve the imports of submodules in their own
 scope

---
 crates/mabo-compiler/src/resolve/mod.rs | 71 +++++++++++++------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index ff36f38..0284a79 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -36,42 +36,47 @@ pub fn schemas(values: &[(&str, &Schema<'_>)]) -> Result<(), Error> {
         .map(|(name, schema)| (*name, resolve_types(name, schema)))
         .collect::<Vec<_>>();
 
-    for (schema, module) in modules
-        .iter()
-        .enumerate()
-        .map(|(i, (_, module))| (values[i].1, module))
-    {
-        let mut missing = Vec::new();
-        resolve_module_types(module, &mut missing);
-
-        let imports = resolve_module_imports(module, &modules).map_err(|e| Error {
-            source_code: NamedSource::new(
-                schema
-                    .path
-                    .as_ref()
-                    .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
-                schema.source.to_owned(),
-            ),
-            cause: ResolveError::Import(e.into()),
-        })?;
-
-        for ty in missing {
-            resolve_type_remotely(ty, &imports).map_err(|e| Error {
-                source_code: NamedSource::new(
-                    schema
-                        .path
-                        .as_ref()
-                        .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
-                    schema.source.to_owned(),
-                ),
-                cause: e,
-            })?;
-        }
+    for (i, (_, module)) in modules.iter().enumerate() {
+        resolve_module(values[i].1, module, &modules)?;
     }
 
     Ok(())
 }
 
+/// Resolve all types that are used in a module, as well as its imports, and do the same for all of
+/// its submodules, as each module is its own scope.
+fn resolve_module(
+    schema: &Schema<'_>,
+    module: &Module<'_>,
+    schemas: &[(&str, Module<'_>)],
+) -> Result<(), Error> {
+    let error = |cause| Error {
+        source_code: NamedSource::new(
+            schema
+                .path
+                .as_ref()
+                .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
+            schema.source.to_owned(),
+        ),
+        cause,
+    };
+
+    let mut missing = Vec::new();
+    resolve_module_types(module, &mut missing);
+
+    let imports = resolve_module_imports(module, schemas)
+        .map_err(|e| error(ResolveError::Import(e.into())))?;
+
+    for ty in missing {
+        resolve_type_remotely(ty, &imports).map_err(error)?;
+    }
+
+    module
+        .modules
+        .values()
+        .try_for_each(|module| resolve_module(schema, module, schemas))
+}
+
 pub(crate) struct Module<'a> {
     /// Name of this module.
     pub name: &'a str,
@@ -373,10 +378,6 @@ pub(crate) fn resolve_module_types<'a>(
             _ => {}
         }
     }
-
-    for module in module.modules.values() {
-        resolve_module_types(module, missing);
-    }
 }
 
 pub(crate) fn resolve_types<'a>(name: &'a str, schema: &'a Schema<'a>) -> Module<'a> {
-- 
2.43.0


From 4e0c654e7b12f81e68e709cb4eba54c6cbfe7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 13/54] fix: resolve the target types of type aliases

---
 crates/mabo-compiler/src/resolve/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 0284a79..ea98c6f 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -375,7 +375,10 @@ pub(crate) fn resolve_module_types<'a>(
                     resolve_fields(missing, &variant.fields, e.generics.as_ref(), module);
                 }
             }
-            _ => {}
+            Definition::TypeAlias(a) => {
+                resolve(missing, &a.target, a.generics.as_ref(), module);
+            }
+            Definition::Module(_) | Definition::Const(_) | Definition::Import(_) => {}
         }
     }
 }
-- 
2.43.0


From 3aaaa0a373d94eb5abc930c8c46d8b42055f6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 14/54] fix: validate the generics of type aliases

---
 crates/mabo-compiler/src/validate/generics.rs | 52 ++++++++++++++-----
 crates/mabo-compiler/src/validate/mod.rs      |  3 +-
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 40dbc4b..fba0c1a 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -1,6 +1,8 @@
 use std::ops::Range;
 
-use mabo_parser::{DataType, Enum, ExternalType, Fields, Generics, Span, Spanned, Struct, Type};
+use mabo_parser::{
+    DataType, Enum, ExternalType, Fields, Generics, Span, Spanned, Struct, Type, TypeAlias,
+};
 use miette::Diagnostic;
 use rustc_hash::{FxBuildHasher, FxHashMap};
 use thiserror::Error;
@@ -97,7 +99,32 @@ pub fn validate_enum_generics(value: &Enum<'_>) -> Result<(), InvalidGenericType
     })
 }
 
-/// Ensure all generic type arguments are unique within a struct or enum.
+/// Ensure all generics in a type alias are unique and used.
+pub fn validate_alias_generics(value: &TypeAlias<'_>) -> Result<(), InvalidGenericType> {
+    let Some(generics) = &value.generics else {
+        return Ok(());
+    };
+
+    validate_duplicate_generics(generics)?;
+
+    let mut unvisited = generics
+        .types
+        .values()
+        .map(|g| (g.get(), g.span()))
+        .collect::<FxHashMap<_, _>>();
+
+    validate_type_generics(&value.target, &mut unvisited);
+
+    unvisited.into_iter().next().map_or(Ok(()), |(name, span)| {
+        Err(UnusedGeneric {
+            name: name.to_owned(),
+            declared: span.into(),
+        }
+        .into())
+    })
+}
+
+/// Ensure all generic type arguments are unique within a struct, enum or type alias.
 fn validate_duplicate_generics(value: &Generics<'_>) -> Result<(), DuplicateGenericName> {
     let mut visited = FxHashMap::with_capacity_and_hasher(value.types.len(), FxBuildHasher);
     value
@@ -121,26 +148,27 @@ fn validate_field_generics(value: &Fields<'_>, unvisited: &mut FxHashMap<&str, S
     match &value {
         Fields::Named(_, named) => {
             for field in named.values() {
-                visit_externals(&field.ty, &mut |external| {
-                    if external.path.is_empty() && external.generics.is_none() {
-                        unvisited.remove(external.name.get());
-                    }
-                });
+                validate_type_generics(&field.ty, unvisited);
             }
         }
         Fields::Unnamed(_, unnamed) => {
             for field in unnamed.values() {
-                visit_externals(&field.ty, &mut |external| {
-                    if external.path.is_empty() && external.generics.is_none() {
-                        unvisited.remove(external.name.get());
-                    }
-                });
+                validate_type_generics(&field.ty, unvisited);
             }
         }
         Fields::Unit => {}
     }
 }
 
+/// Mark any generic types that occur in the type as used.
+fn validate_type_generics(value: &Type<'_>, unvisited: &mut FxHashMap<&str, Span>) {
+    visit_externals(value, &mut |external| {
+        if external.path.is_empty() && external.generics.is_none() {
+            unvisited.remove(external.name.get());
+        }
+    });
+}
+
 /// Iterate recursively through the data type and invoke the closure on each discovered external
 /// type.
 fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>)) {
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 73cceba..662f8d3 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -61,7 +61,7 @@ impl From<DuplicateFieldName> for Error {
 ///   namespace.
 /// - IDs in field names or enum variant names are unique.
 /// - Fields names in structs or enum variants are unique.
-/// - Generic type parameters in a struct or enum are unique.
+/// - Generic type parameters in a struct, enum or type alias are unique.
 /// - All generic type parameters are used.
 ///
 /// # Errors
@@ -91,6 +91,7 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
             tuples::validate_enum_tuples(e)?;
         }
         Definition::TypeAlias(a) => {
+            generics::validate_alias_generics(a)?;
             tuples::validate_alias_tuples(a)?;
         }
         Definition::Const(c) => {
-- 
2.43.0


From f754906726436b0d385bcc07ddab6bc68c4a08fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 15/54] fix: derive identifiers without overflow after the
 largest one

---
 crates/mabo-compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..23bbde7 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,7 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        self.next_id = id.saturating_add(1);
         id
     }
 
-- 
2.43.0


From 4919c92862a0545a5126d7f1c5e1090da0a58eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 16/54] fix: reject field IDs that the wire format can't
 represent

---
 crates/mabo-compiler/src/validate/ids.rs | 53 ++++++++++++++++++++++++
 crates/mabo-compiler/src/validate/mod.rs |  9 +++-
 crates/mabo-lsp/src/handlers/compile.rs  |  4 ++
 3 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-compiler/src/validate/ids.rs b/crates/mabo-compiler/src/validate/ids.rs
index b772025..048284e 100644
--- a/crates/mabo-compiler/src/validate/ids.rs
+++ b/crates/mabo-compiler/src/validate/ids.rs
@@ -90,6 +90,21 @@ pub struct DuplicateUnnamedFieldId {
     pub second: Range<usize>,
 }
 
+/// Field ID that can't be represented in the wire format.
+#[derive(Debug, Diagnostic, Error)]
+#[error("field ID {} is outside of the valid range", id.get())]
+#[diagnostic(help("the ID of a field must be between 1 and {}", FIELD_ID_MAX))]
+pub struct FieldIdRange {
+    /// The invalid ID.
+    pub id: Id,
+    /// Source location of the ID, or the field if the ID was derived.
+    #[label("used here")]
+    pub used: Range<usize>,
+}
+
+/// Largest ID that a field can have, as 3 bits are occupied by its encoding information.
+const FIELD_ID_MAX: u32 = u32::MAX >> 3;
+
 /// Ensure all IDs inside a struct are unique (which are the field IDs).
 pub(crate) fn validate_struct_ids(value: &Struct<'_>) -> Result<(), DuplicateFieldId> {
     validate_field_ids(&value.fields)
@@ -179,3 +194,41 @@ fn validate_field_ids(value: &Fields<'_>) -> Result<(), DuplicateFieldId> {
 
     Ok(())
 }
+
+/// Ensure all field IDs of a struct can be encoded.
+pub(crate) fn validate_struct_id_range(value: &Struct<'_>) -> Result<(), FieldIdRange> {
+    validate_field_id_range(&value.fields)
+}
+
+/// Ensure all field IDs in the variants of an enum can be encoded.
+pub(crate) fn validate_enum_id_range(value: &Enum<'_>) -> Result<(), FieldIdRange> {
+    value
+        .variants
+        .values()
+        .try_for_each(|variant| validate_field_id_range(&variant.fields))
+}
+
+fn validate_field_id_range(value: &Fields<'_>) -> Result<(), FieldIdRange> {
+    fn validate(id: Id) -> Result<(), FieldIdRange> {
+        if (1..=FIELD_ID_MAX).contains(&id.get()) {
+            Ok(())
+        } else {
+            Err(FieldIdRange {
+                used: id.span().into(),
+                id,
+            })
+        }
+    }
+
+    let mut id_gen = IdGenerator::new();
+
+    match value {
+        Fields::Named(_, named) => named.values().try_for_each(|field| {
+            validate(id_gen.next_with_span(field.id.as_ref(), || field.span()))
+        }),
+        Fields::Unnamed(_, unnamed) => unnamed.values().try_for_each(|field| {
+            validate(id_gen.next_with_span(field.id.as_ref(), || field.span()))
+        }),
+        Fields::Unit => Ok(()),
+    }
+}
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 662f8d3..eeabb78 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -9,7 +9,7 @@ pub use self::{
     generics::{DuplicateGenericName, InvalidGenericType, UnusedGeneric},
     ids::{
         DuplicateFieldId, DuplicateId, DuplicateNamedFieldId, DuplicateUnnamedFieldId,
-        DuplicateVariantId,
+        DuplicateVariantId, FieldIdRange,
     },
     names::{DuplicateFieldName, DuplicateName, DuplicateNameInModule, DuplicateVariantName},
     tuples::{InvalidTupleAmount, TupleSize},
@@ -27,6 +27,10 @@ pub enum Error {
     #[error("duplicate ID found")]
     #[diagnostic(transparent)]
     DuplicateId(#[from] DuplicateId),
+    /// Field ID is not supported by the wire format.
+    #[error("invalid field ID found")]
+    #[diagnostic(transparent)]
+    FieldIdRange(#[from] FieldIdRange),
     /// Duplicate name was used in a definition, or its name clashes with another one.
     #[error("duplicate name found")]
     #[diagnostic(transparent)]
@@ -60,6 +64,7 @@ impl From<DuplicateFieldName> for Error {
 /// - All definitions (struct, enums, modules, ...) have a unique name within their module
 ///   namespace.
 /// - IDs in field names or enum variant names are unique.
+/// - IDs of fields are supported by the wire format.
 /// - Fields names in structs or enum variants are unique.
 /// - Generic type parameters in a struct, enum or type alias are unique.
 /// - All generic type parameters are used.
@@ -80,12 +85,14 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
         }
         Definition::Struct(s) => {
             ids::validate_struct_ids(s)?;
+            ids::validate_struct_id_range(s)?;
             names::validate_struct_names(s)?;
             generics::validate_struct_generics(s)?;
             tuples::validate_struct_tuples(s)?;
         }
         Definition::Enum(e) => {
             ids::validate_enum_ids(e)?;
+            ids::validate_enum_id_range(e)?;
             names::validate_enum_names(e)?;
             generics::validate_enum_generics(e)?;
             tuples::validate_enum_tuples(e)?;
diff --git a/crates/mabo-lsp/src/handlers/compile.rs b/crates/mabo-lsp/src/handlers/compile.rs
index 8efe54f..e1619cb 100644
--- a/crates/mabo-lsp/src/handlers/compile.rs
+++ b/crates/mabo-lsp/src/handlers/compile.rs
@@ -205,6 +205,10 @@ fn validate_schema_diagnostic(file: Uri, index: &Index, e: validate::Error) -> D
                 DuplicateFieldId::Unnamed(e) => (e.to_string(), e.first, e.second),
             },
         },
+        Error::FieldIdRange(e) => {
+            let message = e.to_string();
+            return Diagnostic::new_simple(get_range(index, e.used), message);
+        }
         Error::DuplicateName(e) => match e {
             DuplicateName::EnumVariant(e) => (e.to_string(), e.first, e.second),
             DuplicateName::Field(e) => (e.to_string(), e.first, e.second),
-- 
2.43.0


From d4d2024632b606135066e114fd76d232a182ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 17/54] fix: suggest a valid next ID after the largest possible
 one

---
 crates/mabo-meta/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..9fa049c 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -10,7 +10,7 @@ use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 /// Get the next free ID for an enum variant.
 #[must_use]
 pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+    next_id(variants.iter().map(|variant| variant.id), u32::MAX)
 }
 
 /// Get the next free ID for a struct or enum variant field.
@@ -19,15 +19,21 @@ pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
     if fields.kind == FieldKind::Unit {
         None
     } else {
-        Some(
-            fields
-                .fields
-                .iter()
-                .map(|field| field.id)
-                .max()
-                .unwrap_or(0)
-                + 1,
-        )
+        Some(next_id(
+            fields.fields.iter().map(|field| field.id),
+            u32::MAX >> 3, // 3 bits are used for the encoding information
+        ))
+    }
+}
+
+/// Get the ID that follows the largest one or, if that is already the largest possible ID, the
+/// smallest one that is still free.
+fn next_id(ids: impl Iterator<Item = u32> + Clone, limit: u32) -> u32 {
+    match ids.clone().max().unwrap_or(0) {
+        last if last < limit => last + 1,
+        _ => (1..limit)
+            .find(|id| !ids.clone().any(|other| other == *id))
+            .unwrap_or(limit),
     }
 }
 
-- 
2.43.0


From ce5695bc822e000a1d9ab6011687596541efd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 18/54] fix: derive the length prefix of arrays in wire sizes
 from their byte size

---
 crates/mabo-meta/src/lib.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 9fa049c..b0c2093 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -173,20 +173,19 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 }
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
-    let length = varint_size(size);
     let inner = wire_size(ty);
+    let min = inner.as_ref().map_or(0, |inner| inner.min) * size as usize;
+    let max = inner
+        .as_ref()
+        .and_then(|inner| inner.max)
+        .map(|max| max * size as usize);
+    let length = wire_size_length(min, max);
 
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
-        max: inner
-            .as_ref()
-            .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
-        inner: vec![
-            ("length".into(), Some(WireSize::fixed("u64", length))),
-            ("element".into(), inner),
-        ],
+        min: length.min + min,
+        max: length.max.zip(max).map(|(length, max)| length + max),
+        inner: vec![("length".into(), Some(length)), ("element".into(), inner)],
     }
 }
 
@@ -212,6 +211,18 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
     }
 }
 
-fn varint_size(value: u32) -> usize {
-    ((std::mem::size_of::<u32>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
+/// Size of the length prefix, that is put in front of values with the given size in bytes.
+fn wire_size_length(min: usize, max: Option<usize>) -> WireSize {
+    let min = varint_size(min);
+    let max = max.map_or(varint_size(usize::MAX), varint_size);
+
+    if min == max {
+        WireSize::fixed("u64", min)
+    } else {
+        WireSize::range("u64", min, max)
+    }
+}
+
+fn varint_size(value: usize) -> usize {
+    (usize::BITS - value.leading_zeros()).div_ceil(7).max(1) as usize
 }
-- 
2.43.0


From effc12d3f6b8b0bdfbdeb74b2326f26f9567aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 19/54] fix: calculate the wire size of huge arrays without
 overflow

---
 crates/mabo-meta/src/lib.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index b0c2093..650e888 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -151,7 +151,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .and_then(|max| max.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -160,7 +163,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .and_then(|max| max.checked_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -174,17 +180,23 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
     let inner = wire_size(ty);
-    let min = inner.as_ref().map_or(0, |inner| inner.min) * size as usize;
+    let min = inner
+        .as_ref()
+        .map_or(0, |inner| inner.min)
+        .saturating_mul(size as usize);
     let max = inner
         .as_ref()
         .and_then(|inner| inner.max)
-        .map(|max| max * size as usize);
+        .and_then(|max| max.checked_mul(size as usize));
     let length = wire_size_length(min, max);
 
     WireSize {
         label: "array".into(),
-        min: length.min + min,
-        max: length.max.zip(max).map(|(length, max)| length + max),
+        min: length.min.saturating_add(min),
+        max: length
+            .max
+            .zip(max)
+            .and_then(|(length, max)| length.checked_add(max)),
         inner: vec![("length".into(), Some(length)), ("element".into(), inner)],
     }
 }
@@ -202,11 +214,11 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
             .iter()
             .filter_map(|(_, size)| size.as_ref())
             .map(|size| size.min)
-            .sum(),
+            .fold(0, usize::saturating_add),
         max: inner
             .iter()
             .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .try_fold(0, |acc: usize, max| acc.checked_add(max?)),
         inner,
     }
 }
-- 
2.43.0


From b4f0e0d606e9fcd695f120aa55badfc243399d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 20/54] fix: implement the codec traits for Bytes

---
 crates/mabo/src/buf/decode.rs | 7 +++++++
 crates/mabo/src/buf/encode.rs | 7 +++++++
 crates/mabo/src/buf/size.rs   | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index e12a401..f310ef3 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -606,6 +606,13 @@ impl Decode for Box<[u8]> {
     }
 }
 
+impl Decode for Bytes {
+    #[inline(always)]
+    fn decode(r: &mut impl Buf) -> Result<Self> {
+        decode_bytes_bytes(r)
+    }
+}
+
 impl<T> Decode for Vec<T>
 where
     T: Decode,
diff --git a/crates/mabo/src/buf/encode.rs b/crates/mabo/src/buf/encode.rs
index 29bebda..424ebef 100644
--- a/crates/mabo/src/buf/encode.rs
+++ b/crates/mabo/src/buf/encode.rs
@@ -243,6 +243,13 @@ impl Encode for Box<[u8]> {
     }
 }
 
+impl Encode for Bytes {
+    #[inline(always)]
+    fn encode(&self, w: &mut impl BufMut) {
+        encode_bytes_bytes(w, self);
+    }
+}
+
 impl<T> Encode for Vec<T>
 where
     T: Encode,
diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index 4ed4776..028e482 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -199,6 +199,13 @@ impl Size for Box<[u8]> {
     }
 }
 
+impl Size for Bytes {
+    #[inline(always)]
+    fn size(&self) -> usize {
+        size_bytes_bytes(self)
+    }
+}
+
 impl<T> Size for Vec<T>
 where
     T: Size,
-- 
2.43.0


From ffb9c238df1aca2dd5e840192b0ec431950df060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 21/54] fix: allow non-zero collections as keys of sets and
 maps

---
 crates/mabo/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo/src/lib.rs b/crates/mabo/src/lib.rs
index 54b40dd..9344e27 100644
--- a/crates/mabo/src/lib.rs
+++ b/crates/mabo/src/lib.rs
@@ -138,7 +138,7 @@ macro_rules! include {
 /// as value that are not literally `0` (but those are handled by Rust's built-in `NonZeroN` types
 /// anyway), and collections define this as not being empty, meaning to always contain at least one
 /// element. Similarly for strings, it means they always contain at least one character.
-#[derive(Clone, Debug, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct NonZero<T>(T);
 
 impl<T> NonZero<T> {
-- 
2.43.0


From 169307b98a4c9eb5001a4916c001468ebbc45ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 22/54] fix: generate valid Rust code for options, non-zero
 types and tuples in tuples

---
 crates/mabo-build/src/encode.rs | 14 ++++++++------
 crates/mabo-build/src/size.rs   |  9 ++++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 5481f6a..7218ad7 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -321,17 +321,19 @@ fn compile_data_type(
             2..=12 => {
                 let encode = types.iter().enumerate().map(|(idx, ty)| {
                     let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx }, false).1
+                    let name = match ty {
+                        // Accessed further, which binds stronger than the borrow.
+                        Type::NonZero(_) | Type::Tuple(_) => quote! { (&#name.#idx) },
+                        _ => quote! { &#name.#idx },
+                    };
+                    compile_data_type(opts, ty, name, false).1
                 });
                 (
                     quote! { ::mabo::FieldEncoding::LengthPrefixed },
                     if root {
-                        let size = types.iter().enumerate().map(|(idx, ty)| {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                            super::size::compile_data_type(opts, ty, quote! { &#name.#idx })
-                        });
+                        let size = super::size::compile_data_type(opts, ty, name.clone());
 
-                        quote! { ::mabo::buf::encode_tuple(w, || { #(#size)+* }, |w| { #(#encode;)* }) }
+                        quote! { ::mabo::buf::encode_tuple(w, || { #size }, |w| { #(#encode;)* }) }
                     } else {
                         quote! { #(#encode;)* }
                     },
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 6543d6c..2d589cf 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -245,7 +245,14 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
             2..=12 => {
                 let types = types.iter().enumerate().map(|(idx, ty)| {
                     let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx })
+                    let name = match ty {
+                        // Accessed further, which binds stronger than the borrow.
+                        Type::Option(_) | Type::NonZero(_) | Type::Tuple(_) => {
+                            quote! { (&#name.#idx) }
+                        }
+                        _ => quote! { &#name.#idx },
+                    };
+                    compile_data_type(opts, ty, name)
                 });
                 quote! { #(#types)+* }
             }
-- 
2.43.0


From 169bf0ff53974d08c08959ba5a3719e79b316571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 23/54] fix: leave all surrounding modules to reach imported
 schemas

---
 crates/mabo-build/src/definition.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 5096933..cbb2130 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -11,7 +11,9 @@ use crate::{BytesType, Opts};
 /// Take a single schema and convert it into Rust source code.
 #[must_use]
 pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> TokenStream {
-    let definitions = definitions.iter().map(|def| compile_definition(opts, def));
+    let definitions = definitions
+        .iter()
+        .map(|def| compile_definition(opts, def, 0));
 
     quote! {
         #[allow(unused_imports)]
@@ -21,9 +23,10 @@ pub fn compile_schema(opts: &Opts, Schema { definitions, .. }: &Schema<'_>) -> T
     }
 }
 
-fn compile_definition(opts: &Opts, definition: &Definition<'_>) -> TokenStream {
+/// The `depth` is the amount of modules that surround the definition within its schema.
+fn compile_definition(opts: &Opts, definition: &Definition<'_>, depth: usize) -> TokenStream {
     match definition {
-        Definition::Module(m) => compile_module(opts, m),
+        Definition::Module(m) => compile_module(opts, m, depth + 1),
         Definition::Struct(s) => {
             let def = compile_struct(opts, s);
             let encode = encode::compile_struct(opts, s);
@@ -52,7 +55,7 @@ fn compile_definition(opts: &Opts, definition: &Definition<'_>) -> TokenStream {
         }
         Definition::TypeAlias(a) => compile_alias(opts, a),
         Definition::Const(c) => compile_const(c),
-        Definition::Import(i) => compile_import(i),
+        Definition::Import(i) => compile_import(i, depth),
     }
 }
 
@@ -64,10 +67,13 @@ fn compile_module(
         definitions,
         ..
     }: &Module<'_>,
+    depth: usize,
 ) -> TokenStream {
     let comment = compile_comment(comment);
     let name = Ident::new(name, Span::call_site());
-    let definitions = definitions.iter().map(|def| compile_definition(opts, def));
+    let definitions = definitions
+        .iter()
+        .map(|def| compile_definition(opts, def, depth));
 
     quote! {
         #comment
@@ -195,7 +201,10 @@ fn compile_import(
     Import {
         segments, element, ..
     }: &Import<'_>,
+    depth: usize,
 ) -> TokenStream {
+    // Other schemas are siblings of the current one, so all the modules have to be left first.
+    let parents = (0..depth).map(|_| quote! { super:: });
     let segments = segments.iter().enumerate().map(|(i, segment)| {
         let segment = Ident::new(segment, Span::call_site());
         if i > 0 {
@@ -211,7 +220,7 @@ fn compile_import(
 
     quote! {
         #[allow(unused_imports)]
-        use super::#(#segments)*#element;
+        use #(#parents)* super::#(#segments)*#element;
     }
 }
 
-- 
2.43.0


From 18faf7b9d7518819186d5a48e179e7bd2118b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 24/54] fix: escape names that are keywords or variables in the
 generated Rust code

---
 crates/mabo-build/src/decode.rs     | 28 +++++++++++-----------
 crates/mabo-build/src/definition.rs | 28 +++++++++++-----------
 crates/mabo-build/src/encode.rs     | 18 +++++++--------
 crates/mabo-build/src/ident.rs      | 36 +++++++++++++++++++++++++++++
 crates/mabo-build/src/lib.rs        |  1 +
 crates/mabo-build/src/size.rs       | 20 ++++++++--------
 6 files changed, 85 insertions(+), 46 deletions(-)
 create mode 100644 crates/mabo-build/src/ident.rs

diff --git a/crates/mabo-build/src/decode.rs b/crates/mabo-build/src/decode.rs
index 5003ea1..cd0c7f0 100644
--- a/crates/mabo-build/src/decode.rs
+++ b/crates/mabo-build/src/decode.rs
@@ -1,10 +1,10 @@
 use mabo_compiler::simplify::{
     Enum, ExternalType, Field, FieldKind, Fields, Struct, Type, Variant,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::quote;
 
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -15,7 +15,7 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let (generics, generics_where) = compile_generics(generics);
     let field_vars = compile_field_vars(opts, &fields.fields);
     let field_matches = compile_field_matches(opts, fields);
@@ -60,7 +60,7 @@ pub(super) fn compile_enum(
         ..
     }: &Enum<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let (generics, generics_where) = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -89,7 +89,7 @@ fn compile_variant(
     }: &Variant<'_>,
 ) -> TokenStream {
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let field_vars = compile_field_vars(opts, &fields.fields);
     let field_matches = compile_field_matches(opts, fields);
     let field_assigns = compile_field_assigns(fields);
@@ -118,7 +118,7 @@ fn compile_variant(
 
 fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
     let vars = fields.iter().map(|field| {
-        let name = Ident::new(&field.name, Span::call_site());
+        let name = ident::variable(&field.name);
         (name, &field.ty)
     });
 
@@ -138,7 +138,7 @@ fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
 fn compile_field_matches(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
-        let name = proc_macro2::Ident::new(name, Span::call_site());
+        let name = ident::variable(name);
         let ty = compile_data_type(opts, if let Type::Option(ty) = &ty { ty } else { ty }, true);
 
         quote! { #id => #name = Some(#ty?) }
@@ -155,14 +155,16 @@ fn compile_field_assigns(fields: &Fields<'_>) -> TokenStream {
         } else {
             quote! { None }
         };
-        let name = Ident::new(name, Span::call_site());
+        let binding = ident::binding(name);
+        let field = ident::new(name);
+        let name = ident::variable(name);
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
 
         if matches!(ty, Type::Option(_)) {
-            quote! { #name }
+            quote! { #binding }
         } else if fields.kind == FieldKind::Named {
             quote! {
-                #name: #name.ok_or(::mabo::buf::Error::MissingField {
+                #field: #name.ok_or(::mabo::buf::Error::MissingField {
                     id: #id,
                     name: #name_lit,
                 })?
@@ -188,7 +190,7 @@ fn compile_generics(types: &[&str]) -> (TokenStream, TokenStream) {
     if types.is_empty() {
         Default::default()
     } else {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident::new(ty));
         let types2 = types.clone();
 
         (
@@ -295,8 +297,8 @@ fn compile_data_type(opts: &Opts, ty: &Type<'_>, root: bool) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
-            let ty = Ident::new(name, Span::call_site());
+            let path = path.iter().map(|part| ident::new(part));
+            let ty = ident::new(name);
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics
                     .iter()
diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index cbb2130..b771fcc 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -2,11 +2,11 @@ use mabo_compiler::simplify::{
     Const, Definition, Enum, ExternalType, Field, FieldKind, Fields, Import, Literal, Module,
     Schema, Struct, Type, TypeAlias, Variant,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{ToTokens, quote};
 
 use super::{decode, encode, size};
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 /// Take a single schema and convert it into Rust source code.
 #[must_use]
@@ -70,7 +70,7 @@ fn compile_module(
     depth: usize,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let definitions = definitions
         .iter()
         .map(|def| compile_definition(opts, def, depth));
@@ -97,7 +97,7 @@ fn compile_struct(
     }: &Struct<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let generics = compile_generics(generics);
     let semicolon = (fields.kind != FieldKind::Named).then_some(quote! {;});
     let fields = compile_fields(opts, fields, true);
@@ -121,7 +121,7 @@ fn compile_enum(
     }: &Enum<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let generics = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -145,7 +145,7 @@ fn compile_variant(
     }: &Variant<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let fields = compile_fields(opts, fields, false);
 
     quote! {
@@ -165,7 +165,7 @@ fn compile_alias(
     }: &TypeAlias<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let generics = compile_generics(generics);
     let target = compile_data_type(opts, target);
 
@@ -186,7 +186,7 @@ fn compile_const(
     }: &Const<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let ty = compile_const_data_type(ty);
     let value = compile_literal(value);
 
@@ -206,7 +206,7 @@ fn compile_import(
     // Other schemas are siblings of the current one, so all the modules have to be left first.
     let parents = (0..depth).map(|_| quote! { super:: });
     let segments = segments.iter().enumerate().map(|(i, segment)| {
-        let segment = Ident::new(segment, Span::call_site());
+        let segment = ident::new(segment);
         if i > 0 {
             quote! {::#segment}
         } else {
@@ -214,7 +214,7 @@ fn compile_import(
         }
     });
     let element = element.as_ref().map(|element| {
-        let element = Ident::new(element, Span::call_site());
+        let element = ident::new(element);
         quote! { ::#element}
     });
 
@@ -231,7 +231,7 @@ fn compile_comment(lines: &[&str]) -> TokenStream {
 
 fn compile_generics(types: &[&str]) -> Option<TokenStream> {
     (!types.is_empty()).then(|| {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident::new(ty));
         quote! { <#(#types,)*> }
     })
 }
@@ -246,7 +246,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>, for_struct: bool) -> TokenSt
 
             if fields.kind == FieldKind::Named {
                 let comment = compile_comment(comment);
-                let name = Ident::new(name, Span::call_site());
+                let name = ident::new(name);
 
                 quote! {
                     #comment
@@ -349,8 +349,8 @@ pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
-            let name = Ident::new(name, Span::call_site());
+            let path = path.iter().map(|part| ident::new(part));
+            let name = ident::new(name);
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics.iter().map(|ty| compile_data_type(opts, ty));
                 quote! { <#(#types,)*> }
diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 7218ad7..55283fb 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -1,8 +1,8 @@
 use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Variant};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{ToTokens, quote};
 
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -16,14 +16,14 @@ pub(super) fn compile_struct(
     let names = fields
         .fields
         .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+        .map(|field| ident::binding(&field.name));
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
         FieldKind::Unit => quote! {},
     };
 
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let (generics, generics_where) = compile_generics(generics);
     let fields = compile_fields(opts, fields);
 
@@ -54,7 +54,7 @@ pub(super) fn compile_enum(
         ..
     }: &Enum<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let (generics, generics_where) = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -84,12 +84,12 @@ fn compile_variant(
 ) -> TokenStream {
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
     let id = quote! { ::mabo::VariantId::new(#id) };
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let fields_body = compile_fields(opts, fields);
     let field_names = fields
         .fields
         .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+        .map(|field| ident::binding(&field.name));
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -118,7 +118,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = ident::variable(name);
 
             if let Type::Option(ty) = &ty {
                 let (enc, ty) = compile_data_type(opts, ty, quote! { v }, true);
@@ -142,7 +142,7 @@ fn compile_generics(types: &[&str]) -> (TokenStream, TokenStream) {
     if types.is_empty() {
         Default::default()
     } else {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident::new(ty));
         let types2 = types.clone();
 
         (
diff --git a/crates/mabo-build/src/ident.rs b/crates/mabo-build/src/ident.rs
new file mode 100644
index 0000000..1c2d29e
--- /dev/null
+++ b/crates/mabo-build/src/ident.rs
@@ -0,0 +1,36 @@
+//! Conversion of the names in a schema to Rust identifiers.
+
+use proc_macro2::{Ident, Span, TokenStream};
+use quote::{format_ident, quote};
+
+/// Create the identifier for a name from the schema, which might be a keyword in Rust.
+pub(super) fn new(name: &str) -> Ident {
+    match name {
+        // Not allowed as raw identifiers. Names never start with an underscore in a schema.
+        "crate" | "self" | "super" | "Self" => format_ident!("_{name}"),
+        // Only reserved since the 2024 edition.
+        "gen" => Ident::new_raw(name, Span::call_site()),
+        _ => syn::parse_str(name).unwrap_or_else(|_| Ident::new_raw(name, Span::call_site())),
+    }
+}
+
+/// Create the identifier for the variable that holds the value of a field, which must not shadow the
+/// other variables of the generated code.
+pub(super) fn variable(name: &str) -> Ident {
+    match name {
+        "id" | "r" | "w" => format_ident!("_{name}"),
+        _ => new(name),
+    }
+}
+
+/// Bind the named field of a struct (or variant) to its variable, as part of a pattern or expression.
+pub(super) fn binding(name: &str) -> TokenStream {
+    let field = new(name);
+    let variable = variable(name);
+
+    if field == variable {
+        quote! { #field }
+    } else {
+        quote! { #field: #variable }
+    }
+}
diff --git a/crates/mabo-build/src/lib.rs b/crates/mabo-build/src/lib.rs
index 7f4cc4e..7f473d1 100644
--- a/crates/mabo-build/src/lib.rs
+++ b/crates/mabo-build/src/lib.rs
@@ -11,6 +11,7 @@ pub use self::definition::compile_schema;
 mod decode;
 mod definition;
 mod encode;
+mod ident;
 mod size;
 
 /// Shorthand for the standard result type, that defaults to the crate level's [`Error`](enum@Error)
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 2d589cf..06edb1a 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -1,8 +1,8 @@
 use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Variant};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{ToTokens, quote};
 
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -16,14 +16,14 @@ pub(super) fn compile_struct(
     let names = fields
         .fields
         .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+        .map(|field| ident::binding(&field.name));
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
         FieldKind::Unit => quote! {},
     };
 
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let (generics, generics_where) = compile_generics(generics);
     let fields = compile_struct_fields(opts, fields);
 
@@ -51,7 +51,7 @@ fn compile_struct_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = ident::variable(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
@@ -80,7 +80,7 @@ pub(super) fn compile_enum(
         ..
     }: &Enum<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let (generics, generics_where) = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -113,12 +113,12 @@ fn compile_variant(
     }: &Variant<'_>,
 ) -> TokenStream {
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident::new(name);
     let fields_body = compile_variant_fields(opts, fields);
     let field_names = fields
         .fields
         .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+        .map(|field| ident::binding(&field.name));
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -147,7 +147,7 @@ fn compile_variant_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = ident::variable(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
@@ -171,7 +171,7 @@ fn compile_generics(types: &[&str]) -> (TokenStream, TokenStream) {
     if types.is_empty() {
         Default::default()
     } else {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident::new(ty));
         let types2 = types.clone();
 
         (
-- 
2.43.0


From abb96216bd9c17ea36f8e4484801c0250c34c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 25/54] fix: encode box<bytes> independent of the
 representation of bytes

---
 crates/mabo-build/src/encode.rs | 6 +++++-
 crates/mabo-build/src/size.rs   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 55283fb..eb864cc 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -216,7 +216,11 @@ fn compile_data_type(
             quote! { ::mabo::FieldEncoding::LengthPrefixed },
             quote! { ::mabo::buf::encode_string(w, #name) },
         ),
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => (
+            quote! { ::mabo::FieldEncoding::LengthPrefixed },
+            quote! { ::mabo::buf::encode_bytes_std(w, #name) },
+        ),
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => (
                 quote! { ::mabo::FieldEncoding::LengthPrefixed },
                 quote! { ::mabo::buf::encode_bytes_std(w, #name) },
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 06edb1a..c97c453 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -200,7 +200,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::String | Type::StringRef | Type::BoxString => {
             quote! { ::mabo::buf::size_string(#name) }
         }
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => quote! { ::mabo::buf::size_bytes_std(#name) },
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => quote! { ::mabo::buf::size_bytes_std(#name) },
             BytesType::Bytes => quote! { ::mabo::buf::size_bytes_bytes(#name) },
         },
-- 
2.43.0


From 464df8f47339a9d77db290487483d0339d73b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 26/54] fix: declare the generics of type aliases in the
 generated Go code

---
 crates/mabo-go/src/definition.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b1fcc8f..54bebb8 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -363,12 +363,16 @@ impl Display for RenderAlias<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         writeln!(
             f,
-            "{}type {} {}",
+            "{}type {}{} {}",
             RenderComment {
                 indent: Indent(0),
                 comment: &self.0.comment,
             },
             heck::AsUpperCamelCase(&self.0.name),
+            RenderGenerics {
+                generics: &self.0.generics,
+                fields_filter: None
+            },
             RenderType(&self.0.target),
         )
     }
-- 
2.43.0


From 9b2de2ddb0748b872fcfcb00adb713a3558fe183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 27/54] fix: find generics of Go variants inside the arguments
 of other types

---
 crates/mabo-go/src/definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 54bebb8..dcc7975 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -717,7 +717,9 @@ fn uses_generic(generic: &str, fields: &Fields<'_>) -> bool {
             | Type::Array(ty, _) => visit_external(ty, visit),
             Type::HashMap(kv) => visit_external(&kv.0, visit) || visit_external(&kv.1, visit),
             Type::Tuple(types) => types.iter().any(|ty| visit_external(ty, visit)),
-            Type::External(ty) => visit(ty),
+            Type::External(ty) => {
+                visit(ty) || ty.generics.iter().any(|ty| visit_external(ty, visit))
+            }
         }
     }
 
-- 
2.43.0


From e57cd653bca621b7db63bc07db19104556db7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 28/54] fix: declare Go type parameters under the name that
 they are used by

---
 crates/mabo-go/src/definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index dcc7975..06dd7dd 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -222,7 +222,7 @@ impl Display for RenderGenerics<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value} any")?;
+            write!(f, "{} any", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
@@ -261,7 +261,7 @@ impl Display for RenderGenericNames<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value}")?;
+            heck::AsUpperCamelCase(value).fmt(f)?;
         }
         f.write_char(']')
     }
-- 
2.43.0


From caab66d14a817c1bf40c309f28e6714ee87a9464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 29/54] fix: escape Go keywords in parameter names

---
 crates/mabo-go/src/definition.rs | 48 ++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 06dd7dd..9003092 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -325,7 +325,7 @@ impl Display for RenderParameters<'_> {
             writeln!(
                 f,
                 "\t{} {},",
-                heck::AsLowerCamelCase(&field.name),
+                RenderParameterName(&field.name),
                 RenderType(&field.ty),
             )?;
         }
@@ -334,6 +334,50 @@ impl Display for RenderParameters<'_> {
     }
 }
 
+/// All keywords of Go, which can't be used as identifiers.
+const KEYWORDS: &[&str] = &[
+    "break",
+    "case",
+    "chan",
+    "const",
+    "continue",
+    "default",
+    "defer",
+    "else",
+    "fallthrough",
+    "for",
+    "func",
+    "go",
+    "goto",
+    "if",
+    "import",
+    "interface",
+    "map",
+    "package",
+    "range",
+    "return",
+    "select",
+    "struct",
+    "switch",
+    "type",
+    "var",
+];
+
+fn escape_keyword(mut name: String) -> String {
+    if KEYWORDS.contains(&name.as_str()) {
+        name.push('_');
+    }
+    name
+}
+
+struct RenderParameterName<'a>(&'a str);
+
+impl Display for RenderParameterName<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str(&escape_keyword(heck::AsLowerCamelCase(self.0).to_string()))
+    }
+}
+
 struct RenderConstructor<'a>(&'a Fields<'a>);
 
 impl Display for RenderConstructor<'_> {
@@ -348,7 +392,7 @@ impl Display for RenderConstructor<'_> {
                     f,
                     "\t\t{}: {},",
                     heck::AsUpperCamelCase(&field.name),
-                    heck::AsLowerCamelCase(&field.name)
+                    RenderParameterName(&field.name)
                 )?;
             }
 
-- 
2.43.0


From b7d061d2a82cf4505847e1edbd1b42b2ddca3688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 30/54] fix: refer to Go packages by their name and escape
 keywords in it

---
 crates/mabo-go/src/definition.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 9003092..42e7a0e 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -113,7 +113,15 @@ impl Display for RenderPackage<'_> {
             )?;
         }
 
-        writeln!(f, "package {}\n", heck::AsSnakeCase(self.0))
+        writeln!(f, "package {}\n", RenderPackageName(self.0))
+    }
+}
+
+struct RenderPackageName<'a>(&'a str);
+
+impl Display for RenderPackageName<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str(&escape_keyword(heck::AsSnakeCase(self.0).to_string()))
     }
 }
 
@@ -496,7 +504,8 @@ impl Display for RenderType<'_> {
                 if let Some(path) = path.last() {
                     write!(
                         f,
-                        "{path}.{}{}",
+                        "{}.{}{}",
+                        RenderPackageName(path),
                         heck::AsUpperCamelCase(name),
                         RenderGenericTypes(generics),
                     )
-- 
2.43.0


From 44ac5d6941bed763acf07a2b419b6f9afce41506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 31/54] fix: render empty bytes constants as valid Go code

---
 crates/mabo-go/src/definition.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 42e7a0e..1ae7aa2 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -614,10 +614,6 @@ impl Display for RenderLiteral<'_> {
             Literal::Float(f2) => write!(f, "{f2}"),
             Literal::String(s) => write!(f, "{s:?}"),
             Literal::Bytes(b) => {
-                if b.is_empty() {
-                    return Ok(());
-                }
-
                 f.write_str("[]byte{")?;
                 for (i, value) in b.iter().enumerate() {
                     if i > 0 {
-- 
2.43.0


From 77a96376f7e708519f50d1a82523dff5c48a4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 32/54] fix: leave out characters that Go rejects in comments

---
 crates/mabo-go/src/definition.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 1ae7aa2..6347a1c 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -439,6 +439,8 @@ impl Display for RenderComment<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let Self { indent, comment } = *self;
         for line in comment {
+            // Go rejects these two characters in source files, even in comments
+            let line = line.replace(['\0', '\u{feff}'], "");
             writeln!(f, "{indent}// {line}")?;
         }
 
-- 
2.43.0


From 69914a78655f078ed625931fa8e8b381acc0c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 33/54] fix: keep messages that arrive while the language
 server waits for an answer

---
 crates/mabo-lsp/src/client.rs | 110 ++++++++++++++++++++++++----------
 crates/mabo-lsp/src/main.rs   |   4 +-
 2 files changed, 82 insertions(+), 32 deletions(-)

diff --git a/crates/mabo-lsp/src/client.rs b/crates/mabo-lsp/src/client.rs
index 01b7dce..1a4d602 100644
--- a/crates/mabo-lsp/src/client.rs
+++ b/crates/mabo-lsp/src/client.rs
@@ -1,23 +1,68 @@
-use std::time::Duration;
+use std::{
+    collections::VecDeque,
+    time::{Duration, Instant},
+};
 
-use anyhow::{Context, Result, bail, ensure};
-use log::trace;
-use lsp_server::{Connection, Message, Notification, Request, Response};
+use anyhow::{Context, Result, bail};
+use log::{debug, trace};
+use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
 use lsp_types::{
     ConfigurationItem, ConfigurationParams, Diagnostic, PublishDiagnosticsParams, Registration,
     RegistrationParams, Uri,
-    notification::{Notification as LspNotification, PublishDiagnostics},
-    request::{RegisterCapability, Request as LspRequest, WorkspaceConfiguration},
+    notification::{Exit, Notification as LspNotification, PublishDiagnostics},
+    request::{RegisterCapability, Request as LspRequest, Shutdown, WorkspaceConfiguration},
 };
 
 pub struct Client<'a> {
     conn: &'a Connection,
     next_id: i32,
+    /// Messages that arrived while waiting for the response to one of our own requests. They're
+    /// processed afterwards, in their order of arrival.
+    pending: VecDeque<Message>,
 }
 
 impl<'a> Client<'a> {
     pub fn new(conn: &'a Connection) -> Self {
-        Self { conn, next_id: 0 }
+        Self {
+            conn,
+            next_id: 0,
+            pending: VecDeque::new(),
+        }
+    }
+
+    /// Get the next message that the client sent, or `None` if the connection was closed.
+    pub fn next_message(&mut self) -> Option<Message> {
+        self.pending
+            .pop_front()
+            .or_else(|| self.conn.receiver.recv().ok())
+    }
+
+    /// Respond to a shutdown request and wait for the following exit notification. Returns `false`
+    /// if the request was not a shutdown request.
+    ///
+    /// This is the same as [`Connection::handle_shutdown`], but considers pending messages.
+    pub fn handle_shutdown(&mut self, req: &Request) -> Result<bool> {
+        if req.method != Shutdown::METHOD {
+            return Ok(false);
+        }
+
+        self.conn
+            .sender
+            .send(Response::new_ok(req.id.clone(), ()).into())?;
+
+        let msg = match self.pending.pop_front() {
+            Some(msg) => msg,
+            None => self
+                .conn
+                .receiver
+                .recv_timeout(Duration::from_secs(30))
+                .context("timeout waiting for exit notification")?,
+        };
+
+        match msg {
+            Message::Notification(notif) if notif.method == Exit::METHOD => Ok(true),
+            msg => bail!("unexpected message during shutdown: {msg:?}"),
+        }
     }
 
     fn next_id(&mut self) -> i32 {
@@ -53,30 +98,35 @@ impl<'a> Client<'a> {
             .send_timeout(request, Duration::from_secs(2))
             .context("timeout sending request")?;
 
-        match self
-            .conn
-            .receiver
-            .recv_timeout(Duration::from_secs(2))
-            .context("timeout receiving response")?
-        {
-            Message::Response(Response {
-                id,
-                result,
-                error: None,
-            }) => {
-                ensure!(
-                    id == req_id.into(),
-                    "invalid ID (wanted {id}, but got {req_id})"
-                );
-                let result = result.unwrap_or(serde_json::Value::Null);
-                serde_json::from_value(result).map_err(Into::into)
+        let response = self.wait_for_response(&req_id.into())?;
+
+        if let Some(error) = response.error {
+            bail!("request {req_id} failed: {error:?}");
+        }
+
+        let result = response.result.unwrap_or(serde_json::Value::Null);
+        serde_json::from_value(result).map_err(Into::into)
+    }
+
+    /// Wait for the response to the request with the given ID. Any other requests and notifications
+    /// that arrive in the meantime are kept for later.
+    fn wait_for_response(&mut self, req_id: &RequestId) -> Result<Response> {
+        let deadline = Instant::now() + Duration::from_secs(2);
+
+        loop {
+            let message = self
+                .conn
+                .receiver
+                .recv_deadline(deadline)
+                .context("timeout receiving response")?;
+
+            match message {
+                Message::Response(response) if &response.id == req_id => return Ok(response),
+                Message::Response(response) => {
+                    debug!(response:?; "got unexpected response");
+                }
+                message => self.pending.push_back(message),
             }
-            Message::Response(Response {
-                id,
-                result: None,
-                error: Some(error),
-            }) => bail!("request {id} failed: {error:?}"),
-            _ => bail!("invalid message type"),
         }
     }
 
diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index d1a8c42..5b39684 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -67,10 +67,10 @@ fn main() -> Result<()> {
 }
 
 fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
-    for msg in &conn.receiver {
+    while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
-                if conn.handle_shutdown(&req)? {
+                if state.client.handle_shutdown(&req)? {
                     info!("shutting down");
                     return Ok(());
                 }
-- 
2.43.0


From 0194ed259f9a8746c084adcdc23981d4885eba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 34/54] fix: clamp editor positions past the end of a line or
 the text

---
 crates/mabo-lsp/src/handlers/index.rs | 47 +++++++++++++++++++++++----
 crates/mabo-lsp/src/handlers/mod.rs   |  6 ++--
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 649990b..31620c4 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -6,13 +6,16 @@ use lsp_types as lsp;
 
 pub struct Index {
     index: LineIndex,
+    /// Byte offset at the end of each line (excluding the line ending).
+    line_ends: Vec<usize>,
     encoding: Option<WideEncoding>,
 }
 
 impl Index {
-    pub fn new(index: LineIndex, encoding: &lsp::PositionEncodingKind) -> Self {
+    pub fn new(text: &str, encoding: &lsp::PositionEncodingKind) -> Self {
         Self {
-            index,
+            index: LineIndex::new(text),
+            line_ends: line_ends(text),
             encoding: match encoding.as_str() {
                 "utf-8" => None,
                 "utf-32" => Some(WideEncoding::Utf32),
@@ -21,8 +24,9 @@ impl Index {
         }
     }
 
-    pub fn update(&mut self, index: LineIndex) {
-        self.index = index;
+    pub fn update(&mut self, text: &str) {
+        self.index = LineIndex::new(text);
+        self.line_ends = line_ends(text);
     }
 
     #[expect(clippy::cast_possible_truncation)]
@@ -55,7 +59,23 @@ impl Index {
         ))
     }
 
+    /// Convert the position into a byte offset. As described in the LSP specification, a position
+    /// past the end of a line refers to the end of that line. Likewise, lines past the end of the
+    /// file refer to the end of the file.
     pub fn get_offset(&self, position: lsp::Position) -> Result<usize> {
+        let Some(&line_end) = usize::try_from(position.line)
+            .ok()
+            .and_then(|line| self.line_ends.get(line))
+        else {
+            return Ok(self.line_ends.last().copied().unwrap_or_default());
+        };
+
+        // No character takes up less bytes than columns, so this column is past the end of the line
+        // if it is larger than the offset of the line's end.
+        if usize::try_from(position.character).map_or(true, |character| character > line_end) {
+            return Ok(line_end);
+        }
+
         let line_col = if let Some(encoding) = self.encoding {
             self.index
                 .to_utf8(
@@ -73,10 +93,23 @@ impl Index {
             }
         };
 
-        Ok(self
+        let offset = self
             .index
             .offset(line_col)
-            .context("missing offset position")?
-            .into())
+            .context("missing offset position")?;
+
+        Ok(usize::from(offset).min(line_end))
     }
 }
+
+fn line_ends(text: &str) -> Vec<usize> {
+    let mut offset = 0;
+
+    text.split('\n')
+        .map(|line| {
+            let end = offset + line.strip_suffix('\r').unwrap_or(line).len();
+            offset += line.len() + 1;
+            end
+        })
+        .collect()
+}
diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0dcd8f0..4e4a1d0 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -3,7 +3,7 @@
 use std::sync::LazyLock;
 
 use anyhow::{Context, Result};
-use line_index::{LineIndex, TextRange};
+use line_index::TextRange;
 use log::{debug, error, warn};
 use lsp_types::{
     DeleteFilesParams, DidChangeConfigurationParams, DidChangeTextDocumentParams,
@@ -346,7 +346,7 @@ fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextR
 fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state::File {
     FileBuilder {
         rope: Rope::from_str(&text),
-        index: Index::new(LineIndex::new(&text), encoding),
+        index: Index::new(&text, encoding),
         content: text.into_boxed_str(),
         schema_builder: |index, schema| compile::compile(uri, schema, index),
         simplified_builder: compile::simplify,
@@ -360,7 +360,7 @@ fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Inde
     update(&mut heads.rope, &heads.index);
     let text = String::from(&heads.rope);
 
-    heads.index.update(LineIndex::new(&text));
+    heads.index.update(&text);
 
     FileBuilder {
         rope: heads.rope,
-- 
2.43.0


From 92896c63771a7f17c17c6949ff935ec7801faf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 35/54] fix: apply each of several editor changes to the text
 after the previous one

---
 crates/mabo-lsp/src/handlers/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 4e4a1d0..0c1c3f2 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -2,7 +2,7 @@
 
 use std::sync::LazyLock;
 
-use anyhow::{Context, Result};
+use anyhow::{Context, Result, ensure};
 use line_index::TextRange;
 use log::{debug, error, warn};
 use lsp_types::{
@@ -201,7 +201,14 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
         };
 
         update_file(params.text_document.uri.clone(), file, |rope, index| {
+            // Every change refers to the state of the text after the previous change.
             for change in params.content_changes {
+                if change.range.is_none() {
+                    *rope = Rope::from_str(&change.text);
+                    index.update(&change.text);
+                    continue;
+                }
+
                 let range = match convert_range(index, change.range) {
                     Ok(range) => range,
                     Err(e) => {
@@ -214,6 +221,7 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
                 let end = rope.byte_to_char(range.end().into());
                 rope.remove(start..end);
                 rope.insert(start, &change.text);
+                index.update(&String::from(&*rope));
             }
         })
     };
@@ -340,6 +348,8 @@ fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextR
         .get_offset(range.end)
         .context("failed to convert end position to byte offset")?;
 
+    ensure!(start <= end, "start of the range is past its end");
+
     Ok(TextRange::new(start.try_into()?, end.try_into()?))
 }
 
@@ -354,10 +364,14 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
     .build()
 }
 
-fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Index)) -> state::File {
+fn update_file(
+    uri: Uri,
+    file: state::File,
+    update: impl FnOnce(&mut Rope, &mut Index),
+) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index);
+    update(&mut heads.rope, &mut heads.index);
     let text = String::from(&heads.rope);
 
     heads.index.update(&text);
-- 
2.43.0


From 173cfffdb9b4a1f526ffbf6aedd0ec0b1ec1b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 36/54] fix: fall back to the default for missing language
 server settings

---
 crates/mabo-lsp/src/config.rs | 2 +-
 crates/mabo-lsp/src/state.rs  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-lsp/src/config.rs b/crates/mabo-lsp/src/config.rs
index fb2f487..10853f5 100644
--- a/crates/mabo-lsp/src/config.rs
+++ b/crates/mabo-lsp/src/config.rs
@@ -8,7 +8,7 @@ pub struct Global {
 }
 
 #[derive(Debug, Deserialize)]
-#[serde(rename_all = "camelCase")]
+#[serde(rename_all = "camelCase", default)]
 pub struct Hover {
     pub show_next_id: bool,
     pub show_wire_size: bool,
diff --git a/crates/mabo-lsp/src/state.rs b/crates/mabo-lsp/src/state.rs
index 818e279..cd675ef 100644
--- a/crates/mabo-lsp/src/state.rs
+++ b/crates/mabo-lsp/src/state.rs
@@ -55,8 +55,10 @@ impl<'a> GlobalState<'a> {
             "configuration contains not exactly one object"
         );
 
-        let settings = serde_json::from_value(settings.remove(0))
-            .context("failed to parse raw configuration")?;
+        // The client responds with `null` if it doesn't have any configuration for the section.
+        let settings = serde_json::from_value::<Option<_>>(settings.remove(0))
+            .context("failed to parse raw configuration")?
+            .unwrap_or_default();
 
         debug!(settings:?; "configuration loaded");
 
-- 
2.43.0


From 9e0f0e15ef3cf0af2b0199175415f60585553278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 37/54] fix: keep documents that are open in the editor when
 their file is deleted

---
 crates/mabo-lsp/src/handlers/mod.rs | 14 ++++++++++----
 crates/mabo-lsp/src/state.rs        |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0c1c3f2..861b73a 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -151,6 +151,8 @@ pub fn initialized(state: &mut GlobalState<'_>, _params: InitializedParams) {
 pub fn did_open(state: &mut GlobalState<'_>, params: DidOpenTextDocumentParams) {
     debug!(uri:% = params.text_document.uri.as_str(); "schema opened");
 
+    state.open.insert(params.text_document.uri.clone());
+
     let text = params.text_document.text;
     let file = if let Some(file) = state
         .files
@@ -241,15 +243,19 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
     state.files.insert(params.text_document.uri, file);
 }
 
-pub fn did_close(_state: &mut GlobalState<'_>, params: DidCloseTextDocumentParams) {
+pub fn did_close(state: &mut GlobalState<'_>, params: DidCloseTextDocumentParams) {
     debug!(uri:% = params.text_document.uri.as_str(); "schema closed");
+    state.open.remove(&params.text_document.uri);
 }
 
 pub fn did_delete(state: &mut GlobalState<'_>, params: DeleteFilesParams) {
     debug!(files:? = params.files; "files deleted");
-    state
-        .files
-        .retain(|uri, _| !params.files.iter().any(|file| file.uri == uri.as_str()));
+
+    // Documents that are still open stay available, as further changes may arrive for them.
+    let open = &state.open;
+    state.files.retain(|uri, _| {
+        open.contains(uri) || !params.files.iter().any(|file| file.uri == uri.as_str())
+    });
 }
 
 pub fn hover(state: &mut GlobalState<'_>, params: HoverParams) -> Result<Option<Hover>> {
diff --git a/crates/mabo-lsp/src/state.rs b/crates/mabo-lsp/src/state.rs
index cd675ef..640d379 100644
--- a/crates/mabo-lsp/src/state.rs
+++ b/crates/mabo-lsp/src/state.rs
@@ -7,7 +7,7 @@ use lsp_types::{ConfigurationItem, Diagnostic, PositionEncodingKind, Uri};
 use mabo_parser::Schema;
 use ouroboros::self_referencing;
 use ropey::Rope;
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 
 use crate::{client::Client, config, handlers::index::Index};
 
@@ -15,6 +15,8 @@ pub struct GlobalState<'a> {
     pub client: Client<'a>,
     pub encoding: PositionEncodingKind,
     pub files: FxHashMap<Uri, File>,
+    /// Documents that are currently open in the client, which makes it the owner of their content.
+    pub open: FxHashSet<Uri>,
     pub settings: config::Global,
 }
 
@@ -37,6 +39,7 @@ impl<'a> GlobalState<'a> {
             client: Client::new(connection),
             encoding: PositionEncodingKind::UTF16,
             files: FxHashMap::default(),
+            open: FxHashSet::default(),
             settings: config::Global::default(),
         }
     }
-- 
2.43.0


From 7561e391ebc2e813f5b799b0305d966305fd66d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 38/54] fix: choose a position encoding that the language
 server knows

---
 crates/mabo-lsp/src/handlers/index.rs | 7 +++++++
 crates/mabo-lsp/src/handlers/mod.rs   | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 31620c4..ae4c128 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -4,6 +4,13 @@ use anyhow::{Context, Result};
 use line_index::{LineCol, LineIndex, TextSize, WideEncoding, WideLineCol};
 use lsp_types as lsp;
 
+/// All position encodings that can be used for an [`Index`].
+pub const ENCODINGS: [lsp::PositionEncodingKind; 3] = [
+    lsp::PositionEncodingKind::UTF8,
+    lsp::PositionEncodingKind::UTF16,
+    lsp::PositionEncodingKind::UTF32,
+];
+
 pub struct Index {
     index: LineIndex,
     /// Byte offset at the end of each line (excluding the line ending).
diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 861b73a..f9c3269 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -39,13 +39,17 @@ pub fn initialize(
 ) -> Result<InitializeResult> {
     log::trace!("{params:#?}");
 
-    // Select the most preferred position encoding defined by the client.
+    // Select the most preferred position encoding defined by the client (that we know about).
     state.encoding = params
         .capabilities
         .general
         .as_ref()
         .and_then(|general| general.position_encodings.as_ref())
-        .and_then(|encodings| encodings.first())
+        .and_then(|encodings| {
+            encodings
+                .iter()
+                .find(|encoding| index::ENCODINGS.contains(encoding))
+        })
         .cloned()
         .unwrap_or(PositionEncodingKind::UTF16);
 
-- 
2.43.0


From 8c658d3ad2685f1aee9b7efd010982a80ae9e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 39/54] fix: treat the carriage return as part of the line
 ending in comments

---
 crates/mabo-parser/src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index 8eb6700..f6342c0 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use winnow::{
-    ascii::{multispace0, newline, space0},
+    ascii::{line_ending, multispace0, space0},
     combinator::{cut_err, fail, opt, peek, preceded, repeat, terminated, trace},
     dispatch,
     error::{ErrMode, ParserError},
@@ -56,7 +56,7 @@ pub(crate) fn parse_schema<'i>(input: &mut Input<'i>) -> Result<Schema<'i>, Pars
         (
             opt(terminated(
                 ws(comments::parse.map_err2(Into::into)),
-                newline,
+                line_ending,
             )),
             terminated(
                 repeat(0.., parse_definition.map_err2(Into::into)),
@@ -193,7 +193,13 @@ mod comments {
                 preceded(("///", space0), take_till(0.., '\n')).with_span(),
                 '\n',
             )
-            .map(CommentLine::from),
+            .map(|(value, span): (&str, Range<usize>)| {
+                match value.strip_suffix('\r') {
+                    // The carriage return is part of the line ending, not the comment.
+                    Some(value) => CommentLine::from((value, span.start..span.end - 1)),
+                    None => CommentLine::from((value, span)),
+                }
+            }),
         )
         .parse_next(input)
         .map(Comment)
-- 
2.43.0


From ef4aca7dddcb2bc7d4ca1e0cc3af7777f3b6a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:24 +0000
Subject: [PATCH 40/54] fix: report semantic tokens for the comment of the
 schema

---
 crates/mabo-lsp/src/handlers/semantic_tokens.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mabo-lsp/src/handlers/semantic_tokens.rs b/crates/mabo-lsp/src/handlers/semantic_tokens.rs
index 5cc5e6e..b2fd9c0 100644
--- a/crates/mabo-lsp/src/handlers/semantic_tokens.rs
+++ b/crates/mabo-lsp/src/handlers/semantic_tokens.rs
@@ -194,6 +194,8 @@ impl<'a> Visitor<'a> {
     }
 
     pub fn visit_schema(mut self, item: &Schema<'_>) -> Result<Vec<SemanticToken>> {
+        self.visit_comment(&item.comment)?;
+
         for def in &item.definitions {
             self.visit_definition(def)?;
         }
-- 
2.43.0


From 22d79076d8de9074a0aff59d6b7af03a41630a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 41/54] fix: list project files in a deterministic order

The order of the files and of discovered projects depended on the order in which
the file system lists a directory, and with it the output of everything generated
from a project.
---
 crates/mabo-project/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index 5956681..2099057 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -10,7 +10,7 @@ use std::{
 };
 
 use globset::{GlobBuilder, GlobSetBuilder};
-use ignore::{Walk, WalkBuilder};
+use ignore::WalkBuilder;
 use serde::Deserialize;
 
 mod de;
@@ -124,7 +124,9 @@ pub fn discover(base: impl AsRef<Path>) -> Result<Vec<Project>> {
         })?
         .compile_matcher();
 
-    Walk::new(base)
+    WalkBuilder::new(base)
+        .sort_by_file_name(Ord::cmp)
+        .build()
         .filter_map(Result::ok)
         .filter(|f| f.file_type().is_some_and(|ty| ty.is_file()) && pattern.is_match(f.path()))
         .filter_map(|file| {
@@ -175,6 +177,7 @@ fn collect_files(base: &Path, patterns: &[String]) -> Result<Vec<PathBuf>> {
         .follow_links(true)
         .same_file_system(true)
         .skip_stdout(true)
+        .sort_by_file_name(Ord::cmp)
         .build();
 
     let patterns = patterns
-- 
2.43.0


From bc5dbcdba8392e3f8a5f3905915a822729b2fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 42/54] fix: don't treat directories as schema files

A directory with a name like x.mabo that a pattern matches was listed as a schema
file, and reading it fails.
---
 crates/mabo-cli/src/main.rs    | 2 +-
 crates/mabo-project/src/lib.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 0466330..6a285e1 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -116,7 +116,7 @@ fn project_or_files(
         for pattern in patterns {
             for entry in glob::glob(&pattern).context("failed parsing glob pattern")? {
                 let entry = entry.context("failed reading entry")?;
-                if entry.extension().is_none_or(|ext| ext != "mabo") {
+                if entry.extension().is_none_or(|ext| ext != "mabo") || !entry.is_file() {
                     continue;
                 }
                 files.push(entry);
diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index 2099057..117f38b 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -203,6 +203,10 @@ fn collect_files(base: &Path, patterns: &[String]) -> Result<Vec<PathBuf>> {
 
     for entry in walk {
         let entry = entry.map_err(Error::Walk)?;
+        if entry.file_type().is_none_or(|ty| !ty.is_file()) {
+            continue;
+        }
+
         let path = entry
             .path()
             .strip_prefix(base)
-- 
2.43.0


From 0867d9e7a6d3cb4ff5179db58403f3a033d43e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 43/54] fix: check schema files completely and fail if any is
 invalid

mabo check only parsed the files and succeeded even for those that failed. Validate
and resolve them as well, as its documentation says, and report failure.
---
 crates/mabo-cli/src/main.rs | 51 ++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 6a285e1..c7842ba 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -6,7 +6,7 @@ use std::{
     process::ExitCode,
 };
 
-use anyhow::Context;
+use anyhow::{Context, anyhow, ensure};
 use mabo_parser::Schema;
 use miette::Context as _;
 
@@ -44,14 +44,59 @@ fn main() -> ExitCode {
 }
 
 fn check(args: CheckArgs) -> anyhow::Result<()> {
+    let mut inputs = Vec::new();
+    let mut schemas = Vec::new();
+    let mut invalid = false;
+
     for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+        match fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}")) {
+            Ok(buf) => inputs.push((file, buf)),
+            Err(e) => {
+                eprintln!("{e:?}");
+                invalid = true;
+            }
+        }
+    }
+
+    for (file, buf) in &inputs {
+        let name = file
+            .file_stem()
+            .and_then(|stem| stem.to_str())
+            .ok_or_else(|| anyhow!("file name of {file:?} is not valid UTF-8"))?;
+
+        let schema = Schema::parse(buf, Some(file))
+            .wrap_err("failed parsing schema file")
+            .and_then(|schema| {
+                mabo_compiler::validate_schema(&schema)
+                    .wrap_err_with(|| format!("schema file {file:?} is invalid"))?;
+                Ok(schema)
+            });
+
+        match schema {
+            Ok(schema) => schemas.push((name, schema)),
+            Err(e) => {
+                eprintln!("{e:?}");
+                invalid = true;
+            }
+        }
+    }
+
+    if !invalid {
+        let schemas = schemas
+            .iter()
+            .map(|(name, schema)| (*name, schema))
+            .collect::<Vec<_>>();
 
-        if let Err(e) = Schema::parse(&buf, Some(&file)).wrap_err("failed parsing schema file") {
+        if let Err(e) =
+            mabo_compiler::resolve_schemas(&schemas).wrap_err("failed resolving schema files")
+        {
             eprintln!("{e:?}");
+            invalid = true;
         }
     }
 
+    ensure!(!invalid, "some of the schema files are invalid");
+
     Ok(())
 }
 
-- 
2.43.0


From 8f2d7161ce071e99f9db90db293477a111df0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 44/54] fix: format the remaining files if one can't be read

mabo fmt stopped at the first file that is not valid UTF-8 and left the others
unformatted.
---
 crates/mabo-cli/src/main.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index c7842ba..9da7727 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -101,8 +101,17 @@ fn check(args: CheckArgs) -> anyhow::Result<()> {
 }
 
 fn format(args: FmtArgs) -> anyhow::Result<()> {
+    let mut unreadable = false;
+
     for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file)?;
+        let buf = match fs::read_to_string(&file) {
+            Ok(buf) => buf,
+            Err(e) => {
+                eprintln!("failed reading {file:?}: {e}");
+                unreadable = true;
+                continue;
+            }
+        };
         let schema = match Schema::parse(&buf, Some(&file)).wrap_err("Failed parsing schema file") {
             Ok(schema) => schema,
             Err(e) => {
@@ -118,6 +127,8 @@ fn format(args: FmtArgs) -> anyhow::Result<()> {
         }
     }
 
+    ensure!(!unreadable, "some of the schema files couldn't be read");
+
     Ok(())
 }
 
-- 
2.43.0


From c6f6b41f477ab2ca55d2befc022fa6a5c17d08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 45/54] fix: labels of imports that are no types pointed into
 the wrong file

---
 crates/mabo-compiler/src/resolve/error.rs |  8 ++++-
 crates/mabo-compiler/src/resolve/mod.rs   | 38 +++++++++++++++++------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/error.rs b/crates/mabo-compiler/src/resolve/error.rs
index 1d32dd7..ae138eb 100644
--- a/crates/mabo-compiler/src/resolve/error.rs
+++ b/crates/mabo-compiler/src/resolve/error.rs
@@ -197,7 +197,13 @@ pub enum ResolveImport {
     /// The referenced definition can't be used as type.
     #[error(transparent)]
     #[diagnostic(transparent)]
-    InvalidKind(#[from] InvalidKind),
+    InvalidKind(#[from] Box<RemoteInvalidKind>),
+}
+
+impl From<RemoteInvalidKind> for ResolveImport {
+    fn from(value: RemoteInvalidKind) -> Self {
+        Self::InvalidKind(value.into())
+    }
 }
 
 /// The referenced schema wasn't found in the list of available schemas.
diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index ea98c6f..f86147b 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -209,18 +209,12 @@ impl Module<'_> {
                 })?;
 
             match definition.kind {
-                DeclarationKind::Alias => Err(InvalidKind {
-                    kind: "alias",
-                    declared: definition.name.span().into(),
-                    used: element.span().into(),
+                DeclarationKind::Alias => {
+                    Err(self.invalid_kind("alias", definition, element).into())
                 }
-                .into()),
-                DeclarationKind::Const => Err(InvalidKind {
-                    kind: "const",
-                    declared: definition.name.span().into(),
-                    used: element.span().into(),
+                DeclarationKind::Const => {
+                    Err(self.invalid_kind("const", definition, element).into())
                 }
-                .into()),
                 DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics } => {
                     Ok(ResolvedImport::Type {
                         schema: self.schema,
@@ -310,6 +304,30 @@ impl Module<'_> {
             _ => Ok(()),
         }
     }
+
+    /// A definition in this module's schema is used from another one, yet can't be referenced.
+    fn invalid_kind(
+        &self,
+        kind: &'static str,
+        definition: &Declaration<'_>,
+        used: &Name<'_>,
+    ) -> RemoteInvalidKind {
+        RemoteInvalidKind {
+            kind,
+            used: used.span().into(),
+            declaration: [RemoteInvalidKindDeclaration {
+                kind,
+                source_code: NamedSource::new(
+                    self.schema
+                        .path
+                        .as_ref()
+                        .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
+                    self.schema.source.to_owned(),
+                ),
+                used: definition.name.span().into(),
+            }],
+        }
+    }
 }
 
 pub(crate) struct LocallyMissingType<'a> {
-- 
2.43.0


From 506fc33b68855293aeefae177d34d3e96682ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 46/54] fix: references to local definitions that don't fit
 were reported as missing imports

---
 crates/mabo-compiler/src/resolve/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index f86147b..b1a9947 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -68,7 +68,7 @@ fn resolve_module(
         .map_err(|e| error(ResolveError::Import(e.into())))?;
 
     for ty in missing {
-        resolve_type_remotely(ty, &imports).map_err(error)?;
+        resolve_type_remotely(ty, module, &imports).map_err(error)?;
     }
 
     module
@@ -542,9 +542,16 @@ pub(crate) fn resolve_module_imports<'a>(
 
 pub(crate) fn resolve_type_remotely(
     ty: LocallyMissingType<'_>,
+    module: &Module<'_>,
     imports: &[ResolvedImport<'_>],
 ) -> Result<(), ResolveError> {
-    if imports.is_empty() {
+    // Imports only matter for paths that don't lead to anything local already.
+    let local = match ty.external.path.first() {
+        Some((name, _)) => module.modules.contains_key(name.get()),
+        None => !matches!(ty.error, ResolveLocal::MissingDefinition(_)),
+    };
+
+    if local || imports.is_empty() {
         return Err(ty.error.into());
     } else if let Some((name, _)) = ty.external.path.first() {
         let module = imports.iter().find_map(|import| match import {
-- 
2.43.0


From 8d8828f811828094f560eb55686c3753db7161e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 47/54] fix: invalid names of generics were reported with
 placeholder texts

---
 crates/mabo-parser/src/parser/generics.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-parser/src/parser/generics.rs b/crates/mabo-parser/src/parser/generics.rs
index 45dbde6..70ca9b3 100644
--- a/crates/mabo-parser/src/parser/generics.rs
+++ b/crates/mabo-parser/src/parser/generics.rs
@@ -32,7 +32,16 @@ pub enum Cause {
     /// Non-specific general parser error.
     Parser(usize),
     /// Defined name is not considered valid.
-    #[err(msg("TODO!"), code(mabo::parse::generics::invalid_name), help("TODO!"))]
+    #[err(
+        msg("Generic type name is not valid"),
+        code(mabo::parse::generics::invalid_name),
+        help(
+            "Generic type names must start with an uppercase letter ({}), followed by zero or more \
+             alphanumeric characters ({})",
+            highlight::value("A-Z"),
+            highlight::value("A-Z, a-z, 0-9"),
+        )
+    )]
     InvalidName {
         /// Source location of the character.
         #[err(label("Problematic character"))]
-- 
2.43.0


From 0755a3d9ae0e59beeb5564c5a93a2e520f51830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 48/54] fix: errors in attributes were reported as errors of a
 struct

---
 crates/mabo-parser/src/parser/attributes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-parser/src/parser/attributes.rs b/crates/mabo-parser/src/parser/attributes.rs
index abc9dfa..ae82de9 100644
--- a/crates/mabo-parser/src/parser/attributes.rs
+++ b/crates/mabo-parser/src/parser/attributes.rs
@@ -18,11 +18,11 @@ use crate::{
 /// Encountered an invalid `#[...]` attribute declaration.
 #[derive(Debug, ParserError)]
 #[err(
-    msg("Failed to parse struct declaration"),
-    code(mabo::parse::struct_def),
+    msg("Failed to parse attribute declaration"),
+    code(mabo::parse::attribute_def),
     help(
-        "Expected struct declaration in the form `{}`",
-        highlight::sample("struct <Name> {...}"),
+        "Expected attribute declaration in the form `{}`",
+        highlight::sample("#[<name>, <name> = <literal>, <name>(...), ...]"),
     )
 )]
 #[rename(ParseAttributeError)]
-- 
2.43.0


From d4f6bedec53f607821373490f39b5c309c992de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 49/54] fix: mabo-build did not show the place of problems in
 schemas that break a rule

---
 crates/mabo-build/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/lib.rs b/crates/mabo-build/src/lib.rs
index 7f473d1..1a60754 100644
--- a/crates/mabo-build/src/lib.rs
+++ b/crates/mabo-build/src/lib.rs
@@ -3,7 +3,7 @@
 use std::{env, fmt::Debug, fs, path::PathBuf};
 
 use mabo_parser::Schema;
-use miette::Report;
+use miette::{NamedSource, Report};
 use thiserror::Error;
 
 pub use self::definition::compile_schema;
@@ -176,7 +176,8 @@ impl Compiler {
             })?;
 
             mabo_compiler::validate_schema(&schema).map_err(|e| Error::Compile {
-                report: Report::new(e),
+                report: Report::new(e)
+                    .with_source_code(NamedSource::new(path.to_string_lossy(), input.clone())),
                 file: path.clone(),
             })?;
 
-- 
2.43.0


From ee9a39c1c4c48c799b97c41911577b5d381a987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 50/54] fix: mabo-go did not name the file and the place of
 problems

---
 crates/mabo-go/src/main.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-go/src/main.rs b/crates/mabo-go/src/main.rs
index 8762c45..07a0bb1 100644
--- a/crates/mabo-go/src/main.rs
+++ b/crates/mabo-go/src/main.rs
@@ -2,9 +2,10 @@
 
 use std::{env, fs, path::Path, process::Command};
 
-use anyhow::{Context, Result, bail, ensure};
+use anyhow::{Context, Result, anyhow, bail, ensure};
 use mabo_go::{Opts, Output};
 use mabo_parser::Schema;
+use miette::{NamedSource, Report};
 
 use self::cli::Cli;
 
@@ -52,8 +53,13 @@ fn main() -> Result<()> {
                 .to_str()
                 .context("invalid utf-8 encoding")?;
 
-            let schema = Schema::parse(input, Some(path))?;
-            mabo_compiler::validate_schema(&schema)?;
+            let schema = Schema::parse(input, Some(path))
+                .map_err(|e| anyhow!("failed parsing schema file\n{:?}", Report::new(e)))?;
+            mabo_compiler::validate_schema(&schema).map_err(|e| {
+                let source = NamedSource::new(path.to_string_lossy(), input.clone());
+                let report = Report::new(e).with_source_code(source);
+                anyhow!("schema file {path:?} is invalid\n{report:?}")
+            })?;
 
             Ok((stem, schema))
         })
@@ -64,7 +70,8 @@ fn main() -> Result<()> {
         .map(|(name, schema)| (*name, schema))
         .collect::<Vec<_>>();
 
-    mabo_compiler::resolve_schemas(&validated)?;
+    mabo_compiler::resolve_schemas(&validated)
+        .map_err(|e| anyhow!("failed resolving schema files\n{:?}", Report::new(e)))?;
 
     let opts = Opts {
         package: &project.project_file.package.name,
-- 
2.43.0


From b52f1c0ef3745e39d18470d84c56f94a8f227efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 51/54] fix: mabo check did not show the place of problems in
 schemas that break a rule

---
 crates/mabo-cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 9da7727..5e0cd7f 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -8,7 +8,7 @@ use std::{
 
 use anyhow::{Context, anyhow, ensure};
 use mabo_parser::Schema;
-use miette::Context as _;
+use miette::{Context as _, NamedSource, Report};
 
 use self::cli::{CheckArgs, Cli, DocArgs, FmtArgs};
 
@@ -68,6 +68,10 @@ fn check(args: CheckArgs) -> anyhow::Result<()> {
             .wrap_err("failed parsing schema file")
             .and_then(|schema| {
                 mabo_compiler::validate_schema(&schema)
+                    .map_err(|e| {
+                        let source = NamedSource::new(file.to_string_lossy(), buf.clone());
+                        Report::new(e).with_source_code(source)
+                    })
                     .wrap_err_with(|| format!("schema file {file:?} is invalid"))?;
                 Ok(schema)
             });
-- 
2.43.0


From 4a97f8140675c9cffc25fc8e51eee811bf2e9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 52/54] fix: mabo doc did not name the file and the place of
 problems

---
 crates/mabo-cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 5e0cd7f..928f562 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -140,8 +140,10 @@ fn doc(args: DocArgs) -> anyhow::Result<()> {
     let project = mabo_project::load(project_dir(args.project_dir)?)?;
 
     for file in project.files {
-        let content = std::fs::read_to_string(&file)?;
-        let schema = mabo_parser::Schema::parse(&content, Some(&file))?;
+        let content =
+            std::fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+        let schema = mabo_parser::Schema::parse(&content, Some(&file))
+            .map_err(|e| anyhow!("failed parsing schema file\n{:?}", Report::new(e)))?;
         let schema = mabo_compiler::simplify_schema(&schema);
         let docs = mabo_doc::render_schema(&mabo_doc::Opts {}, &schema)?;
 
-- 
2.43.0


From c2cab565d5dda8426d87a17d4ed582774ba0863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:29 +0000
Subject: [PATCH 53/54] fix: the language server failed on messages between
 shutdown and exit

---
 crates/mabo-lsp/src/client.rs | 37 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/mabo-lsp/src/client.rs b/crates/mabo-lsp/src/client.rs
index 1a4d602..12c7a78 100644
--- a/crates/mabo-lsp/src/client.rs
+++ b/crates/mabo-lsp/src/client.rs
@@ -5,7 +5,7 @@ use std::{
 
 use anyhow::{Context, Result, bail};
 use log::{debug, trace};
-use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
+use lsp_server::{Connection, ErrorCode, Message, Notification, Request, RequestId, Response};
 use lsp_types::{
     ConfigurationItem, ConfigurationParams, Diagnostic, PublishDiagnosticsParams, Registration,
     RegistrationParams, Uri,
@@ -40,7 +40,8 @@ impl<'a> Client<'a> {
     /// Respond to a shutdown request and wait for the following exit notification. Returns `false`
     /// if the request was not a shutdown request.
     ///
-    /// This is the same as [`Connection::handle_shutdown`], but considers pending messages.
+    /// This is the same as [`Connection::handle_shutdown`], but considers pending messages and rejects
+    /// any further requests instead of failing.
     pub fn handle_shutdown(&mut self, req: &Request) -> Result<bool> {
         if req.method != Shutdown::METHOD {
             return Ok(false);
@@ -50,18 +51,26 @@ impl<'a> Client<'a> {
             .sender
             .send(Response::new_ok(req.id.clone(), ()).into())?;
 
-        let msg = match self.pending.pop_front() {
-            Some(msg) => msg,
-            None => self
-                .conn
-                .receiver
-                .recv_timeout(Duration::from_secs(30))
-                .context("timeout waiting for exit notification")?,
-        };
-
-        match msg {
-            Message::Notification(notif) if notif.method == Exit::METHOD => Ok(true),
-            msg => bail!("unexpected message during shutdown: {msg:?}"),
+        loop {
+            let msg = match self.pending.pop_front() {
+                Some(msg) => msg,
+                None => self
+                    .conn
+                    .receiver
+                    .recv_timeout(Duration::from_secs(30))
+                    .context("timeout waiting for exit notification")?,
+            };
+
+            match msg {
+                Message::Notification(notif) if notif.method == Exit::METHOD => return Ok(true),
+                Message::Request(req) => {
+                    let message = format!("request `{}` after shutdown", req.method);
+                    self.conn.sender.send(
+                        Response::new_err(req.id, ErrorCode::InvalidRequest as _, message).into(),
+                    )?;
+                }
+                msg => debug!(message:? = msg; "ignoring message during shutdown"),
+            }
         }
     }
 
-- 
2.43.0


From b2e488d44bd07e3bf076b593d31b4b621dda3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:58 +0000
Subject: [PATCH 54/54] fix: the language server reported success when it ended
 without shutdown

---
 crates/mabo-lsp/src/main.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index 5b39684..0264682 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -4,14 +4,14 @@
 
 use std::{net::Ipv4Addr, time::Instant};
 
-use anyhow::{Result, bail};
+use anyhow::{Result, bail, ensure};
 use log::{debug, error, info, warn};
 use lsp_server::{Connection, ErrorCode, ExtractError, Notification, Request, RequestId, Response};
 use lsp_types::{
     DocumentSymbol, InitializeParams, InitializedParams, SemanticTokens,
     notification::{
         DidChangeConfiguration, DidChangeTextDocument, DidCloseTextDocument, DidDeleteFiles,
-        DidOpenTextDocument, Initialized, Notification as LspNotification,
+        DidOpenTextDocument, Exit, Initialized, Notification as LspNotification,
     },
     request::{
         DocumentSymbolRequest, HoverRequest, Request as LspRequest, SemanticTokensFullRequest,
@@ -53,26 +53,33 @@ fn main() -> Result<()> {
 
     info!("server initialized");
 
-    if let Err(e) = main_loop(&connection, state) {
-        error!(error:err = *e; "error in main loop");
-        return Err(e);
-    }
+    let regular = match main_loop(&connection, state) {
+        Ok(regular) => regular,
+        Err(e) => {
+            error!(error:err = *e; "error in main loop");
+            return Err(e);
+        }
+    };
 
     drop(connection);
     io_threads.join()?;
 
+    ensure!(regular, "exit without preceding shutdown request");
+
     info!("goodbye!");
 
     Ok(())
 }
 
-fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
+/// Handle all messages until the session ends. Returns `false` if it ended with an exit notification
+/// that was not preceded by a shutdown request.
+fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<bool> {
     while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
                 if state.client.handle_shutdown(&req)? {
                     info!("shutting down");
-                    return Ok(());
+                    return Ok(true);
                 }
 
                 match req.method.as_str() {
@@ -146,12 +153,16 @@ fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
                         handlers::did_change_configuration,
                     );
                 }
+                Exit::METHOD => {
+                    warn!("exit without shutdown");
+                    return Ok(false);
+                }
                 _ => debug!(notification:? = notif; "got unknown notification"),
             },
         }
     }
 
-    Ok(())
+    Ok(true)
 }
 
 fn handle_request<T, R>(
-- 
2.43.0

