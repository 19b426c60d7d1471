From f54ec0b4da62f23951db0a3bc9a2735524ea0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 1/9] fix: pass on alg parse errors instead of writing them to
 stderr, which can panic

---
 cubing_core/src/alg/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cubing_core/src/alg/parse.rs b/cubing_core/src/alg/parse.rs
index d8719c4..7178ce2 100644
--- a/cubing_core/src/alg/parse.rs
+++ b/cubing_core/src/alg/parse.rs
@@ -330,10 +330,7 @@ impl FromStr for Alg {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match all_consuming(parse_alg)(s) {
             Ok((_, alg)) => Ok(alg),
-            Err(s) => {
-                eprintln!("Alg parsing error: {}", s);
-                Err("Invalid alg string".into()) // TODO: pass on error
-            }
+            Err(e) => Err(format!("Invalid alg string: {}", e).into()),
         }
     }
 }
-- 
2.43.0


From 65cc9671235a0d12fda4a4b067da3de170ad2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 2/9] fix: handle failed and zero-size allocations of packed
 orbit data

---
 .../src/kpuzzle/packed/packed_orbit_data.rs   | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
index a1b84c2..c2b1713 100644
--- a/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
+++ b/cubing_core/src/kpuzzle/packed/packed_orbit_data.rs
@@ -1,7 +1,8 @@
 use std::{
-    alloc::{alloc, dealloc},
+    alloc::{alloc, dealloc, handle_alloc_error},
     fmt::Debug,
     hash::Hash,
+    ptr::NonNull,
 };
 
 use more_asserts::debug_assert_le;
@@ -16,7 +17,10 @@ pub struct PackedOrbitData {
 
 impl Drop for PackedOrbitData {
     fn drop(&mut self) {
-        unsafe { dealloc(self.bytes, self.kpuzzle.data.layout) }
+        let layout = self.kpuzzle.data.layout;
+        if layout.size() != 0 {
+            unsafe { dealloc(self.bytes, layout) }
+        }
     }
 }
 
@@ -26,7 +30,17 @@ impl PackedOrbitData {
     }
 
     pub(crate) unsafe fn new_with_uninitialized_bytes(kpuzzle: KPuzzle) -> Self {
-        let bytes = unsafe { alloc(kpuzzle.data.layout) };
+        let layout = kpuzzle.data.layout;
+        // It is not valid to call `alloc` with a zero-size layout (e.g. a puzzle without pieces).
+        let bytes = if layout.size() == 0 {
+            NonNull::dangling().as_ptr()
+        } else {
+            let bytes = unsafe { alloc(layout) };
+            if bytes.is_null() {
+                handle_alloc_error(layout)
+            }
+            bytes
+        };
         Self { kpuzzle, bytes }
     }
 
-- 
2.43.0


From 7dd68d10976148a666363a69b5390462adb799c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 3/9] fix: look up exactly matching moves by the full move

---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From 9e47bd851838cd4af063ca350acd89cf3c5d0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 4/9] fix: evaluate commutators and conjugates by inverting
 transformations

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..b8966d1 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -169,8 +169,8 @@ fn transformation_from_alg_node(
         AlgNode::CommutatorNode(commutator) => {
             let a = transformation_from_alg(kpuzzle, &commutator.a)?;
             let b = transformation_from_alg(kpuzzle, &commutator.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &commutator.a.invert())?; // TODO: invert the transformation instead of the alg!
-            let b_prime = transformation_from_alg(kpuzzle, &commutator.b.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
+            let b_prime = b.invert();
             Ok(a.apply_transformation(&b)
                 .apply_transformation(&a_prime)
                 .apply_transformation(&b_prime))
@@ -178,7 +178,7 @@ fn transformation_from_alg_node(
         AlgNode::ConjugateNode(conjugate) => {
             let a = transformation_from_alg(kpuzzle, &conjugate.a)?;
             let b = transformation_from_alg(kpuzzle, &conjugate.b)?;
-            let a_prime = transformation_from_alg(kpuzzle, &conjugate.a.invert())?; // TODO: invert the transformation instead of the alg!
+            let a_prime = a.invert();
             Ok(a.apply_transformation(&b).apply_transformation(&a_prime))
         }
     }
-- 
2.43.0


From 643843456f18cab04b7e4a9f6197237d76377da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 5/9] fix: reject definitions with unsupported numbers of
 orientations instead of panicking

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs        | 16 ++++++++++++++++
 .../src/kpuzzle/packed/orientation_packer.rs     | 11 +++++++++++
 2 files changed, 27 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index b8966d1..9df9eea 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -201,6 +201,22 @@ impl KPuzzle {
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
+            if num_orientations == 0 {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} is 0. It must be at least 1.",
+                        orbit_definition.orbit_name
+                    ),
+                });
+            }
+            if !OrientationPacker::supports(num_orientations) {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} ({}) has too many `orientationMod` values for the current build.",
+                        orbit_definition.orbit_name, num_orientations
+                    ),
+                });
+            }
             ordered_orbit_info.push({
                 KPuzzleOrbitInfo {
                     name: orbit_definition.orbit_name.clone(),
diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..fecaaaf 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -65,6 +65,17 @@ pub struct OrientationPacker {
 /// efficiently. This replaces arithmetic with simple lookups for `KPattern` logic.
 
 impl OrientationPacker {
+    /// Whether all the valid (orientation_mod, orientation) pairs for the given
+    /// (positive) `num_orientations` can be packed into a byte each.
+    pub(crate) fn supports(num_orientations: u8) -> bool {
+        let num_packed_values: usize = (1..=num_orientations)
+            .filter(|factor| num_orientations % factor == 0)
+            .map(|factor| factor as usize)
+            .sum::<usize>()
+            + (num_orientations as usize);
+        num_packed_values < NUM_BYTE_VALUES
+    }
+
     pub fn new(num_orientations: u8) -> Self {
         let mut unpacking_table: [OrientationWithMod; NUM_BYTE_VALUES] =
             [BOGUS_ORIENTATION_WITH_MOD; NUM_BYTE_VALUES];
-- 
2.43.0


From f2677edf9dcd81637125535905ec79d2bb4d9fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 6/9] fix: return errors for damaged pattern and transformation
 data

---
 cubing_core/src/kpuzzle/packed/kpattern.rs    | 60 ++++++++++++++++---
 .../src/kpuzzle/packed/ktransformation.rs     | 54 ++++++++++++++---
 2 files changed, 99 insertions(+), 15 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..b140104 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -14,6 +14,55 @@ use crate::{
     kpuzzle::{KPatternData, KPatternOrbitData},
 };
 
+fn invalid_orbit_data(
+    kpuzzle: &KPuzzle,
+    orbit_info: &KPuzzleOrbitInfo,
+    reason: &str,
+) -> InvalidKPatternDataError {
+    InvalidKPatternDataError {
+        description: format!(
+            "{} for orbit {} in the pattern data for puzzle {}.",
+            reason,
+            orbit_info.name,
+            kpuzzle.definition().name
+        ),
+    }
+}
+
+/// Returns data with the right number of values. The `orientation` values are
+/// in range for the orbit, but are not checked against `orientation_mod`.
+fn orbit_data<'a>(
+    kpuzzle: &KPuzzle,
+    orbit_info: &KPuzzleOrbitInfo,
+    kpattern_data: &'a KPatternData,
+) -> Result<&'a KPatternOrbitData, InvalidKPatternDataError> {
+    let invalid = |reason: &str| invalid_orbit_data(kpuzzle, orbit_info, reason);
+
+    let orbit = kpattern_data
+        .get(&orbit_info.name)
+        .ok_or_else(|| invalid("Missing data"))?;
+    let num_pieces = orbit_info.num_pieces as usize;
+    if orbit.pieces.len() != num_pieces {
+        return Err(invalid("Wrong number of `pieces` values"));
+    }
+    if orbit.orientation.len() != num_pieces {
+        return Err(invalid("Wrong number of `orientation` values"));
+    }
+    if let Some(orientation_mod) = &orbit.orientation_mod {
+        if orientation_mod.len() != num_pieces {
+            return Err(invalid("Wrong number of `orientationMod` values"));
+        }
+    }
+    if orbit
+        .orientation
+        .iter()
+        .any(|orientation| *orientation >= orbit_info.num_orientations)
+    {
+        return Err(invalid("Out-of-range `orientation` value"));
+    }
+    Ok(orbit)
+}
+
 #[derive(Hash, PartialEq, Eq, Clone)]
 pub struct KPattern {
     pub(crate) packed_orbit_data: PackedOrbitData,
@@ -27,7 +76,6 @@ impl KPattern {
         }
     }
 
-    // TODO: validation?
     pub fn try_from_data<T: Into<KPuzzle>>(
         kpuzzle: T,
         kpattern_data: &KPatternData,
@@ -35,13 +83,8 @@ impl KPattern {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_kpattern = Self::new_unitialized(&kpuzzle);
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let default_orbit = orbit_data(&kpuzzle, orbit_info, kpattern_data)?;
             for i in 0..orbit_info.num_pieces {
-                let default_orbit = kpattern_data.get(&orbit_info.name);
-                let default_orbit = match default_orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
-                };
-
                 new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
                 new_kpattern.set_orientation_with_mod(
                     orbit_info,
@@ -59,6 +102,9 @@ impl KPattern {
                                     orbit_info.num_orientations
                                 )}));
                             };
+                            if orientation_mod[i as usize] != 0 && default_orbit.orientation[i as usize] >= orientation_mod[i as usize] {
+                                return Err(invalid_orbit_data(&kpuzzle, orbit_info, "Out-of-range `orientation` value").into());
+                            }
                             OrientationWithMod {
                                 orientation: default_orbit.orientation[i as usize],
                                 orientation_mod: orientation_mod[i as usize],
diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..20a020c 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -8,9 +8,53 @@ use crate::{
 };
 
 use super::{
-    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError, KPuzzle,
+    kpuzzle::KPuzzleOrbitInfo, packed_orbit_data::PackedOrbitData, ConversionError,
+    InvalidKTransformationDataError, KPuzzle,
 };
 
+fn valid_orbit_data<'a>(
+    kpuzzle: &KPuzzle,
+    orbit_info: &KPuzzleOrbitInfo,
+    ktransformation_data: &'a KTransformationData,
+) -> Result<&'a KTransformationOrbitData, InvalidKTransformationDataError> {
+    let invalid = |reason: &str| InvalidKTransformationDataError {
+        description: format!(
+            "{} for orbit {} in the transformation data for puzzle {}.",
+            reason,
+            orbit_info.name,
+            kpuzzle.definition().name
+        ),
+    };
+
+    let orbit = ktransformation_data
+        .get(&orbit_info.name)
+        .ok_or_else(|| invalid("Missing data"))?;
+    let num_pieces = orbit_info.num_pieces as usize;
+    if orbit.permutation.len() != num_pieces {
+        return Err(invalid("Wrong number of `permutation` values"));
+    }
+    if orbit.orientation_delta.len() != num_pieces {
+        return Err(invalid("Wrong number of `orientationDelta` values"));
+    }
+    let mut seen = [false; 0x100];
+    for idx in &orbit.permutation {
+        if *idx >= orbit_info.num_pieces {
+            return Err(invalid("Out-of-range `permutation` value"));
+        }
+        if std::mem::replace(&mut seen[*idx as usize], true) {
+            return Err(invalid("Duplicate `permutation` value"));
+        }
+    }
+    if orbit
+        .orientation_delta
+        .iter()
+        .any(|delta| *delta >= orbit_info.num_orientations)
+    {
+        return Err(invalid("Out-of-range `orientationDelta` value"));
+    }
+    Ok(orbit)
+}
+
 #[derive(Clone, Eq)]
 pub struct KTransformation {
     pub(crate) packed_orbit_data: PackedOrbitData,
@@ -23,7 +67,6 @@ impl KTransformation {
         }
     }
 
-    // TODO: validation?
     pub fn try_from_data<T: Into<KPuzzle>>(
         kpuzzle: T,
         ktransformation_data: &KTransformationData,
@@ -31,13 +74,8 @@ impl KTransformation {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_ktransformation = Self::new_uninitialized(kpuzzle.clone());
         for orbit_info in kpuzzle.orbit_info_iter() {
+            let orbit = valid_orbit_data(&kpuzzle, orbit_info, ktransformation_data)?;
             for i in 0..orbit_info.num_pieces {
-                let orbit = ktransformation_data.get(&orbit_info.name);
-                let orbit = match orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
-                };
-
                 new_ktransformation.set_permutation_idx(
                     orbit_info,
                     i,
-- 
2.43.0


From df5b911891f3ccc62991c23038d6fb0e0bde0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 7/9] fix: reject definitions with invalid move data at
 construction

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs         | 12 ++++++++++--
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 10 ++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 9df9eea..e95fc84 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -230,7 +230,7 @@ impl KPuzzle {
             bytes_offset += (orbit_definition.num_pieces as usize) * 2;
         }
 
-        Ok(Self {
+        let kpuzzle = Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
@@ -239,7 +239,15 @@ impl KPuzzle {
                     description: "Could not construct packed layout.".to_owned(),
                 })?,
             }),
-        })
+        };
+        for (r#move, transformation_data) in &kpuzzle.definition().moves {
+            KTransformation::check_data(&kpuzzle, transformation_data).map_err(|e| {
+                InvalidDefinitionError {
+                    description: format!("Invalid definition of move {}: {}", r#move, e),
+                }
+            })?;
+        }
+        Ok(kpuzzle)
     }
 
     pub fn try_from_json(json_bytes: &[u8]) -> Result<KPuzzle, InvalidDefinitionError> {
diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 20a020c..43fc960 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -67,6 +67,16 @@ impl KTransformation {
         }
     }
 
+    pub(crate) fn check_data(
+        kpuzzle: &KPuzzle,
+        ktransformation_data: &KTransformationData,
+    ) -> Result<(), InvalidKTransformationDataError> {
+        for orbit_info in kpuzzle.orbit_info_iter() {
+            valid_orbit_data(kpuzzle, orbit_info, ktransformation_data)?;
+        }
+        Ok(())
+    }
+
     pub fn try_from_data<T: Into<KPuzzle>>(
         kpuzzle: T,
         ktransformation_data: &KTransformationData,
-- 
2.43.0


From 8d9a74f847b80d2f670cb8b77dd282efc9aa6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 8/9] fix: print moves whose amount their special notation
 cannot express

---
 cubing_core/src/alg/move.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..cd3171f 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -74,10 +74,7 @@ impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        if self.quantum.family == "_SLASH_" && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
@@ -95,12 +92,16 @@ impl fmt::Display for Move {
             )?;
             return Ok(());
         }
-        if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
-            let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
-            };
+        // `++` and `--` only cover two amounts. Other amounts use the regular notation.
+        let plusplus_suffix = match self.amount {
+            1 => Some("++"),
+            -1 => Some("--"),
+            _ => None,
+        };
+        if let (Some(family), Some(suffix)) = (
+            self.quantum.family.strip_suffix("_PLUSPLUS_"),
+            plusplus_suffix,
+        ) {
             write!(
                 f,
                 "{}{}",
-- 
2.43.0


From 7ae959e594dbbaf96b882eab263362cde2155e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 9/9] fix: keep the layer prefix in parse_move!

---
 cubing_macros/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..884b2bd 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MovePrefix};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -30,11 +30,22 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
             let move_amount = r#move.amount;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(layer)) => {
+                    let layer = layer.layer;
+                    quote! { Some(cubing::alg::MovePrefix::from(#layer)) }
+                }
+                Some(MovePrefix::Range(range)) => {
+                    let (outer_layer, inner_layer) = (range.outer_layer, range.inner_layer);
+                    quote! { Some(cubing::alg::MovePrefix::from((#outer_layer, #inner_layer))) }
+                }
+            };
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0

