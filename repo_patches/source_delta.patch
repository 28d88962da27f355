From c2d9de2964a46b890deda81605b112559cedcc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:51 +0000
Subject: [PATCH 01/10] fix: keep `*` and 4294967295 apart when normalizing a
 SequenceSet

`normalize` used saturating half-open u32 ranges, so `4294967294:*` and
`*,4294967294` lost the `*`, `5:4294967294` became `5:*`, and
`4294967295` became `*`.
---
 imap-types/src/sequence.rs | 97 +++++++++++++-------------------------
 1 file changed, 34 insertions(+), 63 deletions(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 73d70b0..00d6a6d 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -1,6 +1,6 @@
 use std::{
     cmp::{Ordering, max},
-    collections::{HashSet, VecDeque},
+    collections::VecDeque,
     fmt::Debug,
     iter::Rev,
     mem,
@@ -37,70 +37,41 @@ pub struct SequenceSet(pub Vec1<Sequence>);
 
 impl SequenceSet {
     pub fn normalize(&mut self) -> &mut Self {
-        let mut singles = HashSet::with_capacity(self.0.0.len());
-        let mut ranges = Vec::with_capacity(self.0.0.len());
-
-        // First, normalize all sequences
-        for seq in &mut self.0.0 {
-            match seq.normalize() {
-                Sequence::Single(id) => {
-                    singles.insert(id.to_non_zero_u32());
-                    // Push a 1-lenth range so they can merge nicely
-                    // later on
-                    ranges.push(id.to_non_zero_u32()..id.to_non_zero_u32().saturating_add(1));
-                }
-                Sequence::Range(a, b) => {
-                    ranges.push(a.to_non_zero_u32()..b.to_non_zero_u32().saturating_add(1));
-                }
-            }
-        }
-
-        // TODO: Improve this loop, for eg. with a .retain().
-        for single in singles.clone() {
-            for range in &mut ranges {
-                if single.get() == range.start.get().max(2) - 1 {
-                    singles.remove(&single);
-                    range.start = single;
-                } else if single.get() == range.end.get() {
-                    singles.remove(&single);
-                    range.end = single;
-                } else if range.contains(&single) {
-                    singles.remove(&single);
-                }
-            }
-        }
-
-        // Rebuild the inner sequence set with merged ranges
-        self.0.0.clear();
-        for range in merge_ranges(ranges) {
-            singles.retain(|single| !range.contains(single));
-
-            match (range.start, range.end) {
-                (a, b) if a == b || a.saturating_add(1) == b => {
-                    let a = NonZeroU32::new(a.get()).unwrap();
-                    self.0.0.push(Sequence::Single(a.into()));
-                }
-                (a, NonZeroU32::MAX) => {
-                    self.0.0.push(Sequence::Range(a.into(), SeqOrUid::Asterisk))
-                }
-                (a, b) => {
-                    let b = NonZeroU32::new(b.get().max(2) - 1).unwrap();
-                    self.0.0.push(Sequence::Range(a.into(), b.into()));
-                }
-            }
-        }
+        // `*` takes the place of the largest number: Together with `*`, the largest number is
+        // redundant. Without `*`, the largest number must not become `*`.
+        let mut has_asterisk = false;
+        let mut to_u64 = |id: SeqOrUid| {
+            has_asterisk |= id == SeqOrUid::Asterisk;
+            u64::from(id.to_non_zero_u32().get())
+        };
 
-        // Add remaining singles that don't belong to any range to the
-        // sequence set
-        for single in singles {
-            self.0.0.push(single.into());
-        }
+        // Turn everything into (half-open) ranges so they can merge nicely. Note: `u64` because
+        // the end of a range can exceed `u32`.
+        let ranges = self
+            .0
+            .0
+            .iter_mut()
+            .map(|seq| match *seq.normalize() {
+                Sequence::Single(id) => to_u64(id)..to_u64(id) + 1,
+                Sequence::Range(a, b) => to_u64(a)..to_u64(b) + 1,
+            })
+            .collect();
+
+        let from_u64 = |id: u64| match NonZeroU32::new(id as u32).unwrap() {
+            NonZeroU32::MAX if has_asterisk => SeqOrUid::Asterisk,
+            id => SeqOrUid::Value(id),
+        };
 
-        // Sort the merged sequence set
-        self.0.0.sort_by_key(|seq| match seq {
-            Sequence::Single(a) => a.to_non_zero_u32(),
-            Sequence::Range(a, _) => a.to_non_zero_u32(),
-        });
+        // Rebuild the inner sequence set with merged (and sorted) ranges
+        self.0.0 = merge_ranges(ranges)
+            .into_iter()
+            .map(
+                |range| match (from_u64(range.start), from_u64(range.end - 1)) {
+                    (a, b) if a == b => Sequence::Single(a),
+                    (a, b) => Sequence::Range(a, b),
+                },
+            )
+            .collect();
 
         self
     }
-- 
2.43.0


From af52ce74f747b9561347f16e1dd67983048b1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 02/10] fix: encode the MODSEQ fetch data item with parentheses

RFC 7162: fetch-mod-resp = "MODSEQ" SP "(" permsg-modsequence ")". The
decoder rejected what the encoder wrote.
---
 imap-codec/src/codec/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/codec/encode.rs b/imap-codec/src/codec/encode.rs
index 6433227..edbaddb 100644
--- a/imap-codec/src/codec/encode.rs
+++ b/imap-codec/src/codec/encode.rs
@@ -1777,7 +1777,7 @@ impl EncodeIntoContext for MessageDataItem<'_> {
                 size.encode_ctx(ctx)
             }
             #[cfg(feature = "ext_condstore_qresync")]
-            Self::ModSeq(value) => write!(ctx, "MODSEQ {value}"),
+            Self::ModSeq(value) => write!(ctx, "MODSEQ ({value})"),
         }
     }
 }
-- 
2.43.0


From cfe7317ebe43df203d3515727ade64d11248bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 03/10] fix: limit recursion in nested message/rfc822 body
 structures

Every message/rfc822 part reset the recursion budget, so a BODYSTRUCTURE
with deeply nested messages overflowed the stack of the decoder.
---
 imap-codec/src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/imap-codec/src/body.rs b/imap-codec/src/body.rs
index b78f51c..666cf53 100644
--- a/imap-codec/src/body.rs
+++ b/imap-codec/src/body.rs
@@ -70,7 +70,7 @@ fn body_type_1part_limited(
         }));
     }
 
-    let body_type_msg = |input| body_type_msg_limited(input, 8);
+    let body_type_msg = |input| body_type_msg_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         alt((body_type_msg, body_type_text, body_type_basic)),
@@ -127,7 +127,7 @@ fn body_type_msg_limited(
         }));
     }
 
-    let body = |input| body_limited(input, remaining_recursions.saturating_sub(1));
+    let body = |input| body_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         media_message,
-- 
2.43.0


From ba49798a04a35df6d6dadffc1cdfc0d4b3d6485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 04/10] fix: recognize SCRAM-SHA3-512 and SCRAM-SHA3-512-PLUS

They were parsed into AuthMechanism::Other although they have variants.
---
 imap-types/src/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 3a7ed8a..1847b95 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -157,6 +157,8 @@ impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
             "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
             "SCRAM-SHA-256" => Self::ScramSha256,
             "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
+            "SCRAM-SHA3-512" => Self::ScramSha3_512,
+            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
             _ => Self::Other(AuthMechanismOther(atom)),
         }
     }
-- 
2.43.0


From 4563ce8562ba0474eb37bdcb36d96cfd74cdf330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 05/10] fix: keep the start of a Range<NonZeroU32> converted to
 a Sequence

---
 imap-types/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 00d6a6d..3b4dfab 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -565,7 +565,7 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
         Ok(Self::Range(
-            SeqOrUid::from(MIN),
+            SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
         ))
     }
-- 
2.43.0


From d912a4621ed7f5eb84b7b279e8981165df7e29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 06/10] fix: reject a leading plus sign when parsing SeqOrUid
 from a string

---
 imap-types/src/sequence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 3b4dfab..ac6c404 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -409,7 +409,8 @@ impl FromStr for SeqOrUid {
             // This is to align parsing here with the IMAP grammar:
             // Rust's `parse::<NonZeroU32>` function accepts numbers that start with 0.
             // For example, 00001, is interpreted as 1. But this is not allowed in IMAP.
-            if value.starts_with('0') {
+            // The same is true for a leading plus sign.
+            if value.starts_with(['0', '+']) {
                 Err(ValidationError::new(ValidationErrorKind::Invalid))
             } else {
                 Ok(SeqOrUid::Value(NonZeroU32::from_str(value).map_err(
-- 
2.43.0


From cebc66b2d20921ce67f32660f95d73f596559c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 07/10] fix: reject CR and LF in UTF-8 quoted strings

uQUOTED-CHAR = QUOTED-CHAR / UTF8-2 / UTF8-3 / UTF8-4, and QUOTED-CHAR
excludes CR and LF (TEXT-CHAR). A line end inside a quoted string cannot
be framed.
---
 imap-codec/src/extensions/utf8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/extensions/utf8.rs b/imap-codec/src/extensions/utf8.rs
index 604c804..7554519 100644
--- a/imap-codec/src/extensions/utf8.rs
+++ b/imap-codec/src/extensions/utf8.rs
@@ -40,7 +40,7 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
         dquote,
         map_res(
             escaped(
-                take_while1(|c| !is_quoted_specials(c)),
+                take_while1(|c| !is_quoted_specials(c) && c != b'\r' && c != b'\n'),
                 '\\',
                 one_of("\\\""),
             ),
-- 
2.43.0


From 2187bd7109e96ac47265c8d9002c6fd3f8ecc257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 08/10] fix: recognize the NAMESPACE capability

It was parsed into Capability::Other although it has a variant.
---
 imap-types/src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 9517dd4..e36514b 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1231,6 +1231,8 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
             #[cfg(feature = "ext_condstore_qresync")]
             "qresync" => Self::QResync,
             "uidplus" => Self::UidPlus,
+            #[cfg(feature = "ext_namespace")]
+            "namespace" => Self::Namespace,
             #[cfg(feature = "ext_utf8")]
             "utf8=accept" => Self::Utf8(Utf8Kind::Accept),
             #[cfg(feature = "ext_utf8")]
-- 
2.43.0


From a04547114b6d496f0338e35554d9285fe2daba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:29 +0000
Subject: [PATCH 09/10] fix: parse QUOTA=RES-* capabilities without changing
 them

The resource name was lowercased, and anything before "RES-" (as in
"QUOTA=xRES-STORAGE") was dropped.
---
 imap-types/src/response.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index e36514b..848f8d3 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1254,11 +1254,11 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
                             }
                         }
                         "quota" => {
-                            if let Some((_, right)) =
-                                right.as_ref().to_ascii_lowercase().split_once("res-")
-                            {
+                            if right.to_ascii_lowercase().starts_with("res-") {
                                 // TODO(efficiency)
-                                if let Ok(resource) = Resource::try_from(right.to_owned()) {
+                                if let Ok(resource) =
+                                    Resource::try_from(right["res-".len()..].to_owned())
+                                {
                                     return Self::QuotaRes(resource);
                                 }
                             }
-- 
2.43.0


From e5275ee25aa8fa9966673e96b64998e57386fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:06 +0000
Subject: [PATCH 10/10] fix: do not generate UTF-8 quoted strings with line
 ends

A quoted string cannot contain CR or LF. The Arbitrary implementation of IString
produced such strings, which cannot be encoded to something that decodes.
---
 imap-types/src/arbitrary.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/arbitrary.rs b/imap-types/src/arbitrary.rs
index ca59a0b..dafed55 100644
--- a/imap-types/src/arbitrary.rs
+++ b/imap-types/src/arbitrary.rs
@@ -187,6 +187,8 @@ impl<'a> Arbitrary<'a> for IString<'a> {
 
                 if Quoted::validate(arb.0.as_ref()).is_ok() {
                     Self::Quoted(Quoted(arb.0))
+                } else if arb.0.contains(['\r', '\n']) {
+                    return Err(arbitrary::Error::IncorrectFormat);
                 } else {
                     Self::QuotedUtf8(arb)
                 }
-- 
2.43.0

