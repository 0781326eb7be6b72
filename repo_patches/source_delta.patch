From a17c0ef4dff8104a99d755fb27f64dfeaa10f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:32 +0000
Subject: [PATCH 01/15] fix: extend_range only adds the annotations of the
 given range

AnnotBlock::extend_range added every annotation of the other block, so any proper
sub-range left the block with more annotations than rows.
---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..e49fade 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -332,7 +332,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(other.annots[range].iter().cloned());
 
         Ok(())
     }
-- 
2.43.0


From 5f8224c5af24dcdd8f3c01d415c6ed96633d82b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:32 +0000
Subject: [PATCH 02/15] fix: extend_range_transposed checks the stage of the
 other collection

Rows of another stage were appended (or an index panicked) because only the
transposition's stage was compared.
---
 src/row/same_stage_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..c89d40a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -303,6 +303,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
-- 
2.43.0


From 5a738db32d44756db3e4e510d31b9230cd9cf920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 03/15] fix: SameStageVec::get, get_mut and split handle huge
 indices

index * stage overflowed, which panics (or, without overflow checks, can return a
row) instead of giving None.
---
 src/row/same_stage_vec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index c89d40a..741e3c5 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -172,6 +172,9 @@ impl SameStageVec {
 
     /// Gets a reference to the [`Row`] at a given `index`, or `None` if `index >= self.len()`.
     pub fn get(&self, index: usize) -> Option<&Row> {
+        if index >= self.len() {
+            return None;
+        }
         let bell_slice = self.bells.get(self.get_range_of_row(index))?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
         // `self.bells` is a valid `Row`
@@ -181,6 +184,9 @@ impl SameStageVec {
     /// Gets a mutable reference to the [`Row`] at a given `index`, or `None` if
     /// `index >= self.len()`.
     pub fn get_mut(&mut self, index: usize) -> Option<&mut Row> {
+        if index >= self.len() {
+            return None;
+        }
         let range = self.get_range_of_row(index);
         let bell_slice = self.bells.get_mut(range)?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
@@ -364,7 +370,7 @@ impl SameStageVec {
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
         let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+            utils::split_vec(self.bells, index.checked_mul(self.stage.num_bells())?)?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
-- 
2.43.0


From c83bdd5a61d9af641567c0ab76a02919ff353366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 04/15] fix: extend_transposed_from_within rejects ranges past
 the end

An out-of-range end made the loop read the bells it had just pushed.
---
 src/row/same_stage_vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 741e3c5..579686f 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -329,7 +329,9 @@ impl SameStageVec {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
         // Copy the bells one-by-one, because otherwise we'd have to borrow `self.bells` twice and
         // the borrow checker doesn't like that.
-        for i in self.to_bell_range(range) {
+        let bell_range = self.to_bell_range(range);
+        assert!(bell_range.end <= self.bells.len(), "range out of bounds");
+        for i in bell_range {
             let transposed_bell = transposition[self.bells[i].index()];
             self.bells.push(transposed_bell);
         }
-- 
2.43.0


From cbeb7a7533528a42fe00ff57b212db88403adde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 05/15] fix: Mask::as_row validates the row it returns

Mask::parse and set_bell do not check that the mask's bells form part of a row, so
a fully specified mask such as "11" produced an invalid RowBuf.
---
 src/mask.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..910ea47 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -163,13 +163,10 @@ impl Mask {
 
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
-        if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
-        } else {
-            None
-        }
+        // `Mask`s built by safe code (e.g. `Mask::parse("11")`) aren't necessarily subsets of valid
+        // rows, so a fully specified mask still has to be checked.
+        let bells = self.bells.iter().copied().collect::<Option<Vec<_>>>()?;
+        RowBuf::from_vec(bells).ok()
     }
 
     /// Returns `true` if the set of [`Row`]s satisfying `self` is a subset of those satisfying
-- 
2.43.0


From ecc16eb2fe78558e5d1a92fe5789e08e120fcd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 06/15] fix: SameStageVec::parse doesn't panic on the empty
 string

"".lines() yields nothing, so the unwrap panicked.
---
 src/row/same_stage_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 579686f..97d37c1 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,7 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        let (_one, first_line) = line_iter.next().unwrap_or((1, "")); // `"".lines()` yields no lines
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From 11685be6cc251b744a1672f64f71ecdd51ea63ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 07/15] fix: deserialising a zero stage is an error instead of
 a panic

---
 src/stage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index cadc537..4ef5c1e 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,7 +445,7 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Ok(Stage::new(val as usize))
+        Stage::try_from(val as usize).map_err(E::custom)
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
-- 
2.43.0


From 5a7d6e42c4d9e4f327f4af00bb83b87836bc4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 08/15] fix: serialise bells as the number they are
 deserialised from

Serialize wrote the zero-based index while Deserialize reads the one-based number.
---
 src/bell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..1c448d8 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -400,6 +400,6 @@ impl Serialize for Bell {
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From e394036bd9262ff97cfcbc08c9978d1e85ad99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 09/15] fix: Regex::all_runs normalises runs of length zero

For len == 0 it built the un-normalised pattern `**`, on which matching panics.
---
 src/music.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 65710c4..6cbbcbc 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -226,24 +226,19 @@ impl Regex {
             // An iterator that yields the bells forming this run in ascending order
             let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
 
-            // This unsafety is OK because all of the input patterns must be normalised because
-            // they contain only one wildcard
-            let descending_regex = unsafe {
-                // Descending runs (e.g. `*1234*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
-            let ascending_regex = unsafe {
-                // Ascending runs (e.g. `*4321*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone().rev())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
+            // These have to be normalised, because the two globs are adjacent if `len` is 0
+            // Descending runs (e.g. `*1234*`)
+            let descending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone())
+                    .chain(once(RegexElem::Glob)),
+            );
+            // Ascending runs (e.g. `*4321*`)
+            let ascending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone().rev())
+                    .chain(once(RegexElem::Glob)),
+            );
 
             runs.push(descending_regex);
             runs.push(ascending_regex);
-- 
2.43.0


From edc040ca48c21626abf43e2799eaa401f154931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 10/15] fix: PnBlock parse errors don't count the block's
 offset twice

The token indices already include byte_offset, so errors in any sub-block but the
first pointed past the end of the input.
---
 src/place_not.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index 6532142..a67afa5 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -515,8 +515,7 @@ impl PnBlock {
         // Tracks the index of the first byte in the chunk of PN currently being read.  This is
         // used so that we can return a byte range in the case of an error
         let mut current_pn_start_index = 0;
-        for (i, m) in tok_indices {
-            let index = i + byte_offset;
+        for (index, m) in tok_indices {
             match m {
                 // If the char is a bell name, then add it to the places
                 CharMeaning::Bell(b) => {
-- 
2.43.0


From ee488c684bb3d1f560eb3de0d53b613a75d1ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 11/15] fix: the range of a PnBlock parse error ends with the
 place notation

The exclusive end was one past the delimiter, which is outside the input when the
invalid place notation is at its end.
---
 src/place_not.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index a67afa5..af535b3 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -536,7 +536,7 @@ impl PnBlock {
                         // This unsafety is OK, because we have just sorted the slice
                         let new_pn = unsafe {
                             PlaceNot::from_sorted_slice(&places, stage).map_err(|e| {
-                                PnBlockParseError::PnError(current_pn_start_index..index + 1, e)
+                                PnBlockParseError::PnError(current_pn_start_index..index, e)
                             })
                         }?;
                         places.clear();
-- 
2.43.0


From bef31e6ff34afb16bc69604c9e0dfb1dc5360dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 12/15] fix: MethodLib::from_json reports bad stages and class
 ids as errors

A group with stage 0 or an unknown class id made it panic.
---
 src/method_lib/lib_serde.rs | 19 +++++++++++--------
 src/method_lib/mod.rs       |  8 +++++++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/method_lib/lib_serde.rs b/src/method_lib/lib_serde.rs
index b261e1d..95113a0 100644
--- a/src/method_lib/lib_serde.rs
+++ b/src/method_lib/lib_serde.rs
@@ -1,6 +1,6 @@
 #![cfg(feature = "method_lib_serde")]
 
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use itertools::Itertools;
 use serde_crate::{Deserialize, Serialize};
@@ -78,18 +78,21 @@ impl From<&MethodLib> for MethodLibSerde {
     }
 }
 
-impl From<MethodLibSerde> for MethodLib {
-    fn from(m: MethodLibSerde) -> MethodLib {
+impl TryFrom<MethodLibSerde> for MethodLib {
+    type Error = String;
+
+    fn try_from(m: MethodLibSerde) -> Result<MethodLib, String> {
         let mut unpacked_method_map: LibraryMap = HashMap::with_capacity(25);
 
         for group in m.groups {
             // Unpack values from the group
-            let stage = Stage::new(group.stage);
+            let stage = Stage::try_from(group.stage).map_err(|e| e.to_string())?;
             let full_class = FullClass::new(
                 group.is_jump,
                 group.is_little,
                 group.is_differential,
-                from_class_id(group.class_id).expect("Unexpected type ID found"),
+                from_class_id(group.class_id)
+                    .ok_or_else(|| format!("Invalid Class ID {}", group.class_id))?,
             );
 
             // Get the group of methods that correspond to this group's stage
@@ -120,9 +123,9 @@ impl From<MethodLibSerde> for MethodLib {
             }
         }
 
-        MethodLib {
+        Ok(MethodLib {
             method_map: unpacked_method_map,
-        }
+        })
     }
 }
 
@@ -199,6 +202,6 @@ fn from_class_id(v: u8) -> Option<Class> {
         7 => Class::Alliance,
         8 => Class::Hybrid,
 
-        _ => panic!("Invalid Class ID {}", v),
+        _ => return None,
     })
 }
diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..e2fa56f 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -155,6 +155,11 @@ impl MethodLib {
     }
 }
 
+#[cfg(feature = "method_lib_serde")]
+use serde_crate::de::Error;
+#[cfg(feature = "method_lib_serde")]
+use std::convert::TryFrom;
+
 /// (De)serialising libraries to and from JSON
 #[cfg(feature = "method_lib_serde")]
 impl MethodLib {
@@ -166,7 +171,8 @@ impl MethodLib {
     /// Serialize this `MethodLib` from the compact JSON format generated by
     /// [`MethodLib::to_json`].
     pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
-        serde_json::from_str::<lib_serde::MethodLibSerde>(json).map(Self::from)
+        serde_json::from_str::<lib_serde::MethodLibSerde>(json)
+            .and_then(|lib| Self::try_from(lib).map_err(serde_json::Error::custom))
     }
 }
 
-- 
2.43.0


From 99583d12e51fcbe618d321465625e3e3ffd27ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 13/15] fix: generate_title doesn't panic for stages without a
 name

Library records (and methods) of such stages are accepted, so their titles use the
same form as Stage's Display.
---
 src/method/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/method/mod.rs b/src/method/mod.rs
index e0a5fc8..f734603 100644
--- a/src/method/mod.rs
+++ b/src/method/mod.rs
@@ -216,7 +216,7 @@ pub fn generate_title(name: &str, class: FullClass, stage: Stage) -> String {
         s.push(' ');
     }
     // Always push the stage
-    s.push_str(stage.name().expect("Stage was too big to generate a name"));
+    s.push_str(&stage.to_string());
 
     s
 }
-- 
2.43.0


From 8b2b594cb2b2bdaa3d40c38edbdce3b671006e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 14/15] fix: Row::fast_hash doesn't overflow on 16 or more
 bells

The multiplier overflowed after the last bell, panicking when overflow checks are on.
---
 src/row/borrowed.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..d880acc 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -802,11 +802,11 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            accum = b.index().wrapping_mul(multiplier).wrapping_add(accum);
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From 6373496762fe4e73d44e7a140661c4768de7027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 15/15] fix: get_by_title_with_suggestions accepts zero
 suggestions

Shortlist::new(0) panics.
---
 src/method_lib/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index e2fa56f..00b19a3 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -121,6 +121,9 @@ impl MethodLib {
 
         impl<'s> Eq for Suggestion<'s> {}
 
+        if num_suggestions == 0 {
+            return Vec::new(); // `Shortlist`s can't have zero capacity
+        }
         // Test each method as a suggestion, pushing the suggestions into a shortlist
         let mut suggestion_shortlist = Shortlist::new(num_suggestions);
         for methods in self.method_map.values() {
-- 
2.43.0

