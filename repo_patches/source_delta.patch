From a54959f12b67dc95954f3a207498cbee544bd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 01/12] fix: look up directly defined moves with an amount
 (such as `y2`) exactly

---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From e5a29c7e90440642c3205f207da497209f399aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 02/12] fix: print moves that a special notation cannot
 represent in the general notation

---
 cubing_core/src/alg/move.rs | 45 +++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..050c533 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -70,18 +70,23 @@ impl<'de> Visitor<'de> for MoveVisitor {
     }
 }
 
+/// The family without the given special suffix (unless nothing would be left).
+fn non_empty_family<'a>(family: &'a str, suffix: &str) -> Option<&'a str> {
+    family
+        .strip_suffix(suffix)
+        .filter(|family| !family.is_empty())
+}
+
 impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        // Note: a move that a special notation cannot represent falls back to the general notation below.
+        if self.quantum.family == _SLASH_ && self.quantum.prefix.is_none() && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUS_") {
+        if let Some(family) = non_empty_family(&self.quantum.family, _PLUS_) {
             let suffix = if self.amount < 0 { "-" } else { "+" };
             write!(
                 f,
@@ -95,22 +100,24 @@ impl fmt::Display for Move {
             )?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
+        if let Some(family) = non_empty_family(&self.quantum.family, _PLUSPLUS_) {
             let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
+                1 => Some("++"),
+                -1 => Some("--"),
+                _ => None,
             };
-            write!(
-                f,
-                "{}{}",
-                QuantumMove {
-                    family: family.to_owned(),
-                    prefix: self.quantum.prefix.clone()
-                },
-                suffix
-            )?;
-            return Ok(());
+            if let Some(suffix) = suffix {
+                write!(
+                    f,
+                    "{}{}",
+                    QuantumMove {
+                        family: family.to_owned(),
+                        prefix: self.quantum.prefix.clone()
+                    },
+                    suffix
+                )?;
+                return Ok(());
+            }
         }
         write!(f, "{}", self.quantum)?;
         fmt_amount(f, self.amount)
-- 
2.43.0


From 878ca1e3322135f4b8bb26ca589be7abc2475965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 03/12] fix: end the line after a comment at the end of a part
 of a grouping, commutator or conjugate

---
 cubing_core/src/alg/alg.rs        |  9 +++++++++
 cubing_core/src/alg/commutator.rs | 11 +++++++++--
 cubing_core/src/alg/conjugate.rs  | 11 +++++++++--
 cubing_core/src/alg/grouping.rs   |  3 ++-
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/cubing_core/src/alg/alg.rs b/cubing_core/src/alg/alg.rs
index ae6cb1f..41e4117 100644
--- a/cubing_core/src/alg/alg.rs
+++ b/cubing_core/src/alg/alg.rs
@@ -20,6 +20,15 @@ impl Alg {
     }
 }
 
+/// What must follow the text of `alg` in order to write more text on the same
+/// line: a line comment at the end would swallow that text otherwise.
+pub(crate) fn line_end(alg: &Alg) -> &'static str {
+    match alg.nodes.last() {
+        Some(AlgNode::LineCommentNode(_)) => "\n",
+        _ => "",
+    }
+}
+
 impl fmt::Display for Alg {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/cubing_core/src/alg/commutator.rs b/cubing_core/src/alg/commutator.rs
index 633e58d..436bba7 100644
--- a/cubing_core/src/alg/commutator.rs
+++ b/cubing_core/src/alg/commutator.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 use std::sync::Arc;
 
-use super::Alg;
+use super::{alg::line_end, Alg};
 
 // TODO: Remove `PartialEq` if we add any metadata (e.g. parsing info, or memoizations).
 #[derive(Debug, Clone, PartialEq)]
@@ -23,6 +23,13 @@ impl fmt::Display for Commutator {
     // TODO: memoize?
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}, {}]", self.a, self.b)
+        write!(
+            f,
+            "[{}{}, {}{}]",
+            self.a,
+            line_end(&self.a),
+            self.b,
+            line_end(&self.b)
+        )
     }
 }
diff --git a/cubing_core/src/alg/conjugate.rs b/cubing_core/src/alg/conjugate.rs
index fb53fac..e4e376b 100644
--- a/cubing_core/src/alg/conjugate.rs
+++ b/cubing_core/src/alg/conjugate.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 use std::sync::Arc;
 
-use super::Alg;
+use super::{alg::line_end, Alg};
 
 // TODO: Remove `PartialEq` if we add any metadata (e.g. parsing info, or memoizations).
 #[derive(Debug, Clone, PartialEq)]
@@ -22,6 +22,13 @@ impl Conjugate {
 impl fmt::Display for Conjugate {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}: {}]", self.a, self.b)
+        write!(
+            f,
+            "[{}{}: {}{}]",
+            self.a,
+            line_end(&self.a),
+            self.b,
+            line_end(&self.b)
+        )
     }
 }
diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 7e53cc8..9e8eafb 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 use std::sync::Arc;
 
+use super::alg::line_end;
 use super::amount::fmt_amount;
 use super::special_notation::{D_SQ_quantum, U_SQ_quantum};
 use super::{Alg, AlgNode, Move};
@@ -61,7 +62,7 @@ impl fmt::Display for Grouping {
         }
         write!(f, "{}", self.alg)?;
         if include_parentheses {
-            write!(f, ")")?;
+            write!(f, "{})", line_end(&self.alg))?;
         }
         fmt_amount(f, self.amount)
     }
-- 
2.43.0


From 448bb2538a074558d601a86557e1b64d7940b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 04/12] fix: keep the layer prefix in parse_move!

---
 cubing_macros/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..6a8bdc6 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MovePrefix};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -29,12 +29,24 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
     match move_string.parse::<Move>() {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(layer)) => {
+                    let layer = layer.layer;
+                    quote! { Some(cubing::alg::MovePrefix::from(#layer)) }
+                }
+                Some(MovePrefix::Range(range)) => {
+                    let outer_layer = range.outer_layer;
+                    let inner_layer = range.inner_layer;
+                    quote! { Some(cubing::alg::MovePrefix::from((#outer_layer, #inner_layer))) }
+                }
+            };
             let move_amount = r#move.amount;
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0


From 344fd43cbee245fb5c184db02e35086099a3a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 05/12] fix: pack the orientations of every supported
 `num_orientations`, reject 0

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs            | 8 ++++++++
 cubing_core/src/kpuzzle/packed/orientation_packer.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..1cd98b2 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -198,6 +198,14 @@ impl KPuzzle {
 
         for orbit_definition in &definition.orbits {
             let num_orientations = orbit_definition.num_orientations;
+            if num_orientations == 0 {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} must be at least 1.",
+                        orbit_definition.orbit_name
+                    ),
+                });
+            }
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..550816b 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -83,6 +83,11 @@ impl OrientationPacker {
             if num_orientations % factor != 0 {
                 continue;
             }
+            if orientation_mod == num_orientations {
+                // Same as the default `orientation_mod` of 0, so it shares the packed values (which would not fit into a byte otherwise).
+                packing_table[orientation_mod as usize] = packing_table[0];
+                continue;
+            }
             packing_table[orientation_mod as usize] = num_packed_values_sofar; // Note: this is sparse, so we only assign once per `orientation_mod`, not once per packed value.
             for orientation in 0..factor {
                 unpacking_table[num_packed_values_sofar as usize] = OrientationWithMod {
-- 
2.43.0


From 87f3554a09aef24d3d2150e63c280af31941f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 06/12] fix: report invalid transformation data as an error
 instead of panicking or reading out of bounds

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs     | 12 ++++-
 .../src/kpuzzle/packed/ktransformation.rs     | 48 ++++++++++++-------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 1cd98b2..62d8e47 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -222,7 +222,7 @@ impl KPuzzle {
             bytes_offset += (orbit_definition.num_pieces as usize) * 2;
         }
 
-        Ok(Self {
+        let kpuzzle = Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
@@ -231,7 +231,15 @@ impl KPuzzle {
                     description: "Could not construct packed layout.".to_owned(),
                 })?,
             }),
-        })
+        };
+        for (key_move, transformation_data) in &kpuzzle.definition().moves {
+            if let Err(e) = KTransformation::try_from_data(&kpuzzle, transformation_data) {
+                return Err(InvalidDefinitionError {
+                    description: format!("Invalid definition of the move {}: {}", key_move, e),
+                });
+            }
+        }
+        Ok(kpuzzle)
     }
 
     pub fn try_from_json(json_bytes: &[u8]) -> Result<KPuzzle, InvalidDefinitionError> {
diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..9264cd4 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -8,7 +8,8 @@ use crate::{
 };
 
 use super::{
-    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError, KPuzzle,
+    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError,
+    InvalidKTransformationDataError, KPuzzle,
 };
 
 #[derive(Clone, Eq)]
@@ -23,7 +24,6 @@ impl KTransformation {
         }
     }
 
-    // TODO: validation?
     pub fn try_from_data<T: Into<KPuzzle>>(
         kpuzzle: T,
         ktransformation_data: &KTransformationData,
@@ -31,23 +31,35 @@ impl KTransformation {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_ktransformation = Self::new_uninitialized(kpuzzle.clone());
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let invalid_data = |description: &str| {
+                ConversionError::InvalidKTransformationData(InvalidKTransformationDataError {
+                    description: format!("{} (orbit: {})", description, orbit_info.name),
+                })
+            };
+            let orbit = match ktransformation_data.get(&orbit_info.name) {
+                Some(orbit) => orbit,
+                None => return Err(invalid_data("Missing orbit in transformation data")),
+            };
+            let num_pieces = orbit_info.num_pieces as usize;
+            if orbit.permutation.len() < num_pieces || orbit.orientation_delta.len() < num_pieces {
+                return Err(invalid_data("Too few entries in transformation data"));
+            }
+            let mut is_used = vec![false; num_pieces];
             for i in 0..orbit_info.num_pieces {
-                let orbit = ktransformation_data.get(&orbit_info.name);
-                let orbit = match orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
-                };
-
-                new_ktransformation.set_permutation_idx(
-                    orbit_info,
-                    i,
-                    orbit.permutation[i as usize],
-                );
-                new_ktransformation.set_orientation_delta(
-                    orbit_info,
-                    i,
-                    orbit.orientation_delta[i as usize],
-                );
+                let permutation_idx = orbit.permutation[i as usize];
+                if permutation_idx >= orbit_info.num_pieces || is_used[permutation_idx as usize] {
+                    return Err(invalid_data("Not a permutation in transformation data"));
+                }
+                is_used[permutation_idx as usize] = true;
+                let orientation_delta = orbit.orientation_delta[i as usize];
+                if orientation_delta >= orbit_info.num_orientations {
+                    return Err(invalid_data(
+                        "Orientation delta is too large in transformation data",
+                    ));
+                }
+
+                new_ktransformation.set_permutation_idx(orbit_info, i, permutation_idx);
+                new_ktransformation.set_orientation_delta(orbit_info, i, orientation_delta);
             }
         }
         Ok(new_ktransformation)
-- 
2.43.0


From 2275be5e540fb588fbe9209c0c05790338594b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 07/12] fix: check the value in
 KTransformation::set_permutation_idx, initialize all entries in invert

---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 9264cd4..87b315a 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -160,10 +160,9 @@ impl KTransformation {
         }
     }
 
-    /// # Safety
-    /// This version does not check whether `i` is in the correct range.
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
 
@@ -267,7 +266,8 @@ impl KTransformation {
     }
 
     pub fn invert(&self) -> KTransformation {
-        let mut new_ktransformation = KTransformation::new_uninitialized(self.kpuzzle().clone());
+        // Note: every entry must be initialized, even if setters were used to construct something that is not a permutation.
+        let mut new_ktransformation = self.kpuzzle().identity_transformation();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             let num_orientations = orbit_info.num_orientations;
 
-- 
2.43.0


From 58dbd3e6e6b77e8a8e5714641056c65d143bf8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 08/12] fix: report invalid pattern data as an error instead of
 panicking

---
 cubing_core/src/kpuzzle/packed/kpattern.rs | 76 +++++++++++++---------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..6ceb601 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -27,7 +27,6 @@ impl KPattern {
         }
     }
 
-    // TODO: validation?
     pub fn try_from_data<T: Into<KPuzzle>>(
         kpuzzle: T,
         kpattern_data: &KPatternData,
@@ -35,37 +34,56 @@ impl KPattern {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_kpattern = Self::new_unitialized(&kpuzzle);
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let invalid_data = |description: &str| {
+                ConversionError::InvalidKPatternData(InvalidKPatternDataError {
+                    description: format!("{} (orbit: {})", description, orbit_info.name),
+                })
+            };
+            let orbit = match kpattern_data.get(&orbit_info.name) {
+                Some(orbit) => orbit,
+                None => return Err(invalid_data("Missing orbit in pattern data")),
+            };
+            let num_pieces = orbit_info.num_pieces as usize;
+            if orbit.pieces.len() < num_pieces
+                || orbit.orientation.len() < num_pieces
+                || matches!(&orbit.orientation_mod, Some(orientation_mod) if orientation_mod.len() < num_pieces)
+            {
+                return Err(invalid_data("Too few entries in pattern data"));
+            }
             for i in 0..orbit_info.num_pieces {
-                let default_orbit = kpattern_data.get(&orbit_info.name);
-                let default_orbit = match default_orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
+                let orientation_with_mod = match &orbit.orientation_mod {
+                    None => OrientationWithMod::new_using_default_orientation_mod(
+                        orbit.orientation[i as usize],
+                    ),
+                    Some(orientation_mod) => {
+                        if orientation_mod[i as usize] != 0
+                            && orbit_info.num_orientations % orientation_mod[i as usize] != 0
+                        {
+                            return Err(ConversionError::InvalidKPatternData(InvalidKPatternDataError { description: format!(
+                                "`orientation_mod` of {} seen for piece at index {} in orbit {} in the start pattern for puzzle {}. This must be a factor of `num_orientations` for the orbit ({}). See: https://js.cubing.net/cubing/api/interfaces/kpuzzle.KPatternOrbitData.html#orientationMod",
+                                orientation_mod[i as usize],
+                                i,
+                                orbit_info.name,
+                                kpuzzle.definition().name,
+                                orbit_info.num_orientations
+                            )}));
+                        };
+                        OrientationWithMod {
+                            orientation: orbit.orientation[i as usize],
+                            orientation_mod: orientation_mod[i as usize],
+                        }
+                    }
                 };
+                let num_distinct_orientations = match orientation_with_mod.orientation_mod {
+                    0 => orbit_info.num_orientations,
+                    orientation_mod => orientation_mod,
+                };
+                if orientation_with_mod.orientation >= num_distinct_orientations {
+                    return Err(invalid_data("Orientation is too large in pattern data"));
+                }
 
-                new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
-                new_kpattern.set_orientation_with_mod(
-                    orbit_info,
-                    i,
-                    &match &default_orbit.orientation_mod {
-                        None => OrientationWithMod::new_using_default_orientation_mod( default_orbit.orientation[i as usize]),
-                        Some(orientation_mod) => {
-                            if orientation_mod[i as usize] != 0 && orbit_info.num_orientations % orientation_mod[i as usize] != 0 {
-                                return Err(ConversionError::InvalidKPatternData(InvalidKPatternDataError { description: format!(
-                                    "`orientation_mod` of {} seen for piece at index {} in orbit {} in the start pattern for puzzle {}. This must be a factor of `num_orientations` for the orbit ({}). See: https://js.cubing.net/cubing/api/interfaces/kpuzzle.KPatternOrbitData.html#orientationMod",
-                                    orientation_mod[i as usize],
-                                    i,
-                                    orbit_info.name,
-                                    kpuzzle.definition().name,
-                                    orbit_info.num_orientations
-                                )}));
-                            };
-                            OrientationWithMod {
-                                orientation: default_orbit.orientation[i as usize],
-                                orientation_mod: orientation_mod[i as usize],
-                            }
-                        }
-                    },
-                );
+                new_kpattern.set_piece(orbit_info, i, orbit.pieces[i as usize]);
+                new_kpattern.set_orientation_with_mod(orbit_info, i, &orientation_with_mod);
             }
         }
         Ok(new_kpattern)
-- 
2.43.0


From 7399686c4aec2005435c5349679b1900b05cb60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 09/12] fix: invert transformations in commutators and
 conjugates, as inverted algs can recurse infinitely

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 62d8e47..7d5f64b 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -169,8 +169,8 @@ fn transformation_from_alg_node(
         AlgNode::CommutatorNode(commutator) => {
             let a = transformation_from_alg(kpuzzle, &commutator.a)?;
             let b = transformation_from_alg(kpuzzle, &commutator.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &commutator.a.invert())?; // TODO: invert the transformation instead of the alg!
-            let b_prime = transformation_from_alg(kpuzzle, &commutator.b.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
+            let b_prime = b.invert();
             Ok(a.apply_transformation(&b)
                 .apply_transformation(&a_prime)
                 .apply_transformation(&b_prime))
@@ -178,7 +178,7 @@ fn transformation_from_alg_node(
         AlgNode::ConjugateNode(conjugate) => {
             let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
             let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &conjugate.a.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
             Ok(a.apply_transformation(&b).apply_transformation(&a_prime))
         }
     }
-- 
2.43.0


From ba1fd9b814959bc51b31abdac19a63da8053e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 10/12] fix: do not allocate zero bytes for puzzles without
 pieces

---
 .../src/kpuzzle/packed/packed_orbit_data.rs     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
index a1b84c2..1432f19 100644
--- a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
+++ b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
@@ -1,7 +1,8 @@
 use std::{
-    alloc::{alloc, dealloc},
+    alloc::{alloc, dealloc, handle_alloc_error},
     fmt::Debug,
     hash::Hash,
+    ptr::NonNull,
 };
 
 use more_asserts::debug_assert_le;
@@ -16,6 +17,9 @@ pub struct PackedOrbitData {
 
 impl Drop for PackedOrbitData {
     fn drop(&mut self) {
+        if self.kpuzzle.data.layout.size() == 0 {
+            return; // Nothing was allocated.
+        }
         unsafe { dealloc(self.bytes, self.kpuzzle.data.layout) }
     }
 }
@@ -26,7 +30,16 @@ impl PackedOrbitData {
     }
 
     pub(crate) unsafe fn new_with_uninitialized_bytes(kpuzzle: KPuzzle) -> Self {
-        let bytes = unsafe { alloc(kpuzzle.data.layout) };
+        let layout = kpuzzle.data.layout;
+        if layout.size() == 0 {
+            // The behavior of `alloc` is undefined for this.
+            let bytes = NonNull::dangling().as_ptr();
+            return Self { kpuzzle, bytes };
+        }
+        let bytes = unsafe { alloc(layout) };
+        if bytes.is_null() {
+            handle_alloc_error(layout);
+        }
         Self { kpuzzle, bytes }
     }
 
-- 
2.43.0


From abe61f454cc3c15e606134f695f5390bbd083347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 11/12] fix: end the source chain of InvalidAlgError, which was
 its own source

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 7d5f64b..467910d 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -83,11 +83,7 @@ pub enum InvalidAlgError {
     InvalidMove(InvalidMoveError),
 }
 
-impl Error for InvalidAlgError {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for InvalidAlgError {}
 
 fn identity_transformation(kpuzzle: &KPuzzle) -> KTransformation {
     let mut packed_orbit_data =
-- 
2.43.0


From 15a062c404cd02733435007e8b057038e1e8f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 12/12] fix: report JSON that is no transformation data as
 invalid transformation data

---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 87b315a..5e1ba0d 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -95,8 +95,8 @@ impl KTransformation {
         let ktransformation_data: KTransformationData = match serde_json::from_slice(json_bytes) {
             Ok(ktransformation_data) => ktransformation_data,
             Err(e) => {
-                return Err(ConversionError::InvalidKPatternData(
-                    super::InvalidKPatternDataError {
+                return Err(ConversionError::InvalidKTransformationData(
+                    InvalidKTransformationDataError {
                         description: format!(
                             "Could not parse JSON for KTransformation data: {}",
                             e
-- 
2.43.0

