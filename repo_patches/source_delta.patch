From f41aa40f46a33666ad4e7c0e364ce45f5fc4189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 01/14] fix: look up directly defined moves by their exact
 amount (e.g. `y2` on clock)

---
 cubing_core/src/kpuzzle/packed/lookup_move.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/lookup_move.rs b/cubing_core/src/kpuzzle/packed/lookup_move.rs
index 35a6a90..31fed28 100644
--- a/cubing_core/src/kpuzzle/packed/lookup_move.rs
+++ b/cubing_core/src/kpuzzle/packed/lookup_move.rs
@@ -44,7 +44,7 @@ pub(crate) fn lookup_move<'a>(
         };
     }
     // Exact match (e.g. y2 on clock)
-    if let Some((key_move, source)) = def.moves.get_key_value(&r#move_with_amount_1(r#move)) {
+    if let Some((key_move, source)) = def.moves.get_key_value(r#move) {
         return Some(MoveLookupResult {
             key_move,
             relative_amount: 1,
-- 
2.43.0


From 09176013f169bd845535934931a469995c7ea5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 02/14] fix: avoid overflowing the packed orientation values
 for highly composite orientation counts

---
 cubing_core/src/kpuzzle/packed/orientation_packer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/orientation_packer.rs b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
index ec3d1e5..fabc33a 100644
--- a/cubing_core/src/kpuzzle/packed/orientation_packer.rs
+++ b/cubing_core/src/kpuzzle/packed/orientation_packer.rs
@@ -83,6 +83,12 @@ impl OrientationPacker {
             if num_orientations % factor != 0 {
                 continue;
             }
+            if orientation_mod == num_orientations {
+                // This is equivalent to the default (an `orientation_mod` of 0), which is handled before any other value.
+                // Using separate packed values for both would exceed the available packed values for some `num_orientations`.
+                packing_table[orientation_mod as usize] = packing_table[0];
+                continue;
+            }
             packing_table[orientation_mod as usize] = num_packed_values_sofar; // Note: this is sparse, so we only assign once per `orientation_mod`, not once per packed value.
             for orientation in 0..factor {
                 unpacking_table[num_packed_values_sofar as usize] = OrientationWithMod {
-- 
2.43.0


From 65fb2203a9dbc2f088d4cd6bcd29eed37fa7c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 03/14] fix: return an error instead of panicking for an orbit
 with no orientations

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 6080d37..1cd98b2 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -198,6 +198,14 @@ impl KPuzzle {
 
         for orbit_definition in &definition.orbits {
             let num_orientations = orbit_definition.num_orientations;
+            if num_orientations == 0 {
+                return Err(InvalidDefinitionError {
+                    description: format!(
+                        "`num_orientations` for orbit {} must be at least 1.",
+                        orbit_definition.orbit_name
+                    ),
+                });
+            }
             if num_orientations > MAX_NUM_ORIENTATIONS_INCLUSIVE {
                 return Err(InvalidDefinitionError { description: format!("`num_orientations` for orbit {} is too large ({}). Maximum is {} for the current build." , orbit_definition.orbit_name, num_orientations, MAX_NUM_ORIENTATIONS_INCLUSIVE)});
             }
-- 
2.43.0


From dec637cb6fab59dc0cbf9ff5b0214dc03e8c1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 04/14] fix: avoid zero-size allocations for puzzles without
 any pieces

---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 1cd98b2..287e727 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -227,8 +227,11 @@ impl KPuzzle {
                 definition,
                 num_bytes: bytes_offset,
                 ordered_orbit_info,
-                layout: Layout::array::<u8>(bytes_offset).map_err(|_| InvalidDefinitionError {
-                    description: "Could not construct packed layout.".to_owned(),
+                // The layout must have a non-zero size in order to be allocated.
+                layout: Layout::array::<u8>(bytes_offset.max(1)).map_err(|_| {
+                    InvalidDefinitionError {
+                        description: "Could not construct packed layout.".to_owned(),
+                    }
                 })?,
             }),
         })
-- 
2.43.0


From baaf970d428fa21a962c561c6b6cb0f056acd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 05/14] fix: return an error for transformation data that does
 not fit the puzzle

Out-of-range or repeated permutation entries were accepted, which allowed out-of-bounds reads (when applied) or uninitialized bytes (when inverted). Missing or incomplete orbit data caused a panic.
---
 .../src/kpuzzle/packed/ktransformation.rs     | 62 ++++++++++++++-----
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index a7993aa..39eff98 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -31,23 +31,53 @@ impl KTransformation {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_ktransformation = Self::new_uninitialized(kpuzzle.clone());
         for orbit_info in kpuzzle.orbit_info_iter() {
-            for i in 0..orbit_info.num_pieces {
-                let orbit = ktransformation_data.get(&orbit_info.name);
-                let orbit = match orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
-                };
+            let orbit = match ktransformation_data.get(&orbit_info.name) {
+                Some(orbit) => orbit,
+                None => {
+                    return Err(ConversionError::InvalidKTransformationData(
+                        format!("Missing data for orbit {}", orbit_info.name).into(),
+                    ))
+                }
+            };
+            if orbit.permutation.len() != orbit_info.num_pieces as usize
+                || orbit.orientation_delta.len() != orbit_info.num_pieces as usize
+            {
+                return Err(ConversionError::InvalidKTransformationData(
+                    format!(
+                        "Incorrect number of entries for orbit {} (expected {})",
+                        orbit_info.name, orbit_info.num_pieces
+                    )
+                    .into(),
+                ));
+            }
 
-                new_ktransformation.set_permutation_idx(
-                    orbit_info,
-                    i,
-                    orbit.permutation[i as usize],
-                );
-                new_ktransformation.set_orientation_delta(
-                    orbit_info,
-                    i,
-                    orbit.orientation_delta[i as usize],
-                );
+            let mut seen = [false; 0x100];
+            for i in 0..orbit_info.num_pieces {
+                let permutation_idx = orbit.permutation[i as usize];
+                if permutation_idx >= orbit_info.num_pieces || seen[permutation_idx as usize] {
+                    return Err(ConversionError::InvalidKTransformationData(
+                        format!(
+                            "Out-of-range or repeated permutation entry ({}) in orbit {}",
+                            permutation_idx, orbit_info.name
+                        )
+                        .into(),
+                    ));
+                }
+                seen[permutation_idx as usize] = true;
+
+                let orientation_delta = orbit.orientation_delta[i as usize];
+                if orientation_delta >= orbit_info.num_orientations {
+                    return Err(ConversionError::InvalidKTransformationData(
+                        format!(
+                            "Out-of-range orientation delta ({}) in orbit {}",
+                            orientation_delta, orbit_info.name
+                        )
+                        .into(),
+                    ));
+                }
+
+                new_ktransformation.set_permutation_idx(orbit_info, i, permutation_idx);
+                new_ktransformation.set_orientation_delta(orbit_info, i, orientation_delta);
             }
         }
         Ok(new_ktransformation)
-- 
2.43.0


From 7f9d99776cacf7c19cc8a8420b1d581726634a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 06/14] fix: return an error instead of panicking for pattern
 data that does not fit the puzzle

---
 cubing_core/src/kpuzzle/packed/kpattern.rs | 87 +++++++++++++++-------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpattern.rs b/cubing_core/src/kpuzzle/packed/kpattern.rs
index 55a6f65..91cd167 100644
--- a/cubing_core/src/kpuzzle/packed/kpattern.rs
+++ b/cubing_core/src/kpuzzle/packed/kpattern.rs
@@ -35,37 +35,68 @@ impl KPattern {
         let kpuzzle: KPuzzle = kpuzzle.into();
         let mut new_kpattern = Self::new_unitialized(&kpuzzle);
         for orbit_info in kpuzzle.orbit_info_iter() {
-            for i in 0..orbit_info.num_pieces {
-                let default_orbit = kpattern_data.get(&orbit_info.name);
-                let default_orbit = match default_orbit {
-                    Some(default_orbit) => default_orbit,
-                    None => panic!("Invalid default pattern"), // TODO: catch at construction time?
-                };
+            let num_pieces = orbit_info.num_pieces as usize;
+            let default_orbit = match kpattern_data.get(&orbit_info.name) {
+                Some(default_orbit) => default_orbit,
+                None => {
+                    return Err(ConversionError::InvalidKPatternData(
+                        format!("Missing data for orbit {}", orbit_info.name).into(),
+                    ))
+                }
+            };
+            let num_orientation_mods = match &default_orbit.orientation_mod {
+                None => num_pieces,
+                Some(orientation_mod) => orientation_mod.len(),
+            };
+            if default_orbit.pieces.len() != num_pieces
+                || default_orbit.orientation.len() != num_pieces
+                || num_orientation_mods != num_pieces
+            {
+                return Err(ConversionError::InvalidKPatternData(
+                    format!(
+                        "Incorrect number of entries for orbit {} (expected {})",
+                        orbit_info.name, orbit_info.num_pieces
+                    )
+                    .into(),
+                ));
+            }
 
+            for i in 0..orbit_info.num_pieces {
                 new_kpattern.set_piece(orbit_info, i, default_orbit.pieces[i as usize]);
-                new_kpattern.set_orientation_with_mod(
-                    orbit_info,
-                    i,
-                    &match &default_orbit.orientation_mod {
-                        None => OrientationWithMod::new_using_default_orientation_mod( default_orbit.orientation[i as usize]),
-                        Some(orientation_mod) => {
-                            if orientation_mod[i as usize] != 0 && orbit_info.num_orientations % orientation_mod[i as usize] != 0 {
-                                return Err(ConversionError::InvalidKPatternData(InvalidKPatternDataError { description: format!(
-                                    "`orientation_mod` of {} seen for piece at index {} in orbit {} in the start pattern for puzzle {}. This must be a factor of `num_orientations` for the orbit ({}). See: https://js.cubing.net/cubing/api/interfaces/kpuzzle.KPatternOrbitData.html#orientationMod",
-                                    orientation_mod[i as usize],
-                                    i,
-                                    orbit_info.name,
-                                    kpuzzle.definition().name,
-                                    orbit_info.num_orientations
-                                )}));
-                            };
-                            OrientationWithMod {
-                                orientation: default_orbit.orientation[i as usize],
-                                orientation_mod: orientation_mod[i as usize],
-                            }
+                let orientation_with_mod = match &default_orbit.orientation_mod {
+                    None => OrientationWithMod::new_using_default_orientation_mod( default_orbit.orientation[i as usize]),
+                    Some(orientation_mod) => {
+                        if orientation_mod[i as usize] != 0 && orbit_info.num_orientations % orientation_mod[i as usize] != 0 {
+                            return Err(ConversionError::InvalidKPatternData(InvalidKPatternDataError { description: format!(
+                                "`orientation_mod` of {} seen for piece at index {} in orbit {} in the start pattern for puzzle {}. This must be a factor of `num_orientations` for the orbit ({}). See: https://js.cubing.net/cubing/api/interfaces/kpuzzle.KPatternOrbitData.html#orientationMod",
+                                orientation_mod[i as usize],
+                                i,
+                                orbit_info.name,
+                                kpuzzle.definition().name,
+                                orbit_info.num_orientations
+                            )}));
+                        };
+                        OrientationWithMod {
+                            orientation: default_orbit.orientation[i as usize],
+                            orientation_mod: orientation_mod[i as usize],
                         }
-                    },
-                );
+                    }
+                };
+                let max_orientation = if orientation_with_mod.orientation_mod == 0 {
+                    orbit_info.num_orientations
+                } else {
+                    orientation_with_mod.orientation_mod
+                };
+                if orientation_with_mod.orientation >= max_orientation {
+                    return Err(ConversionError::InvalidKPatternData(
+                        format!(
+                            "Out-of-range orientation ({}) in orbit {}",
+                            orientation_with_mod.orientation, orbit_info.name
+                        )
+                        .into(),
+                    ));
+                }
+                new_kpattern.set_orientation_with_mod(orbit_info, i, &orientation_with_mod);
             }
         }
         Ok(new_kpattern)
-- 
2.43.0


From 8dadcbe44aa369fdd1afc75f445485d140ad9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 07/14] fix: check that a permutation index is within range
 when setting it

The value is used as an unchecked index when a transformation is applied to a pattern.
---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 39eff98..47950aa 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -178,10 +178,10 @@ impl KTransformation {
         }
     }
 
-    /// # Safety
-    /// This version does not check whether `i` is in the correct range.
     pub fn set_permutation_idx(&mut self, orbit_info: &KPuzzleOrbitInfo, i: u8, value: u8) {
         assert_lt!(i, orbit_info.num_pieces);
+        // Applying a transformation to a pattern relies on this to stay within bounds.
+        assert_lt!(value, orbit_info.num_pieces);
         unsafe { self.set_permutation_idx_unchecked(orbit_info, i, value) }
     }
 
-- 
2.43.0


From bebbeb2325b0ae9d6b57073e287c6b87da38dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 08/14] fix: reject puzzle definitions with invalid move
 transformations at construction time

Using such a move caused a panic.
---
 cubing_core/src/kpuzzle/packed/kpuzzle.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cubing_core/src/kpuzzle/packed/kpuzzle.rs b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
index 287e727..6189bdc 100644
--- a/cubing_core/src/kpuzzle/packed/kpuzzle.rs
+++ b/cubing_core/src/kpuzzle/packed/kpuzzle.rs
@@ -222,7 +222,7 @@ impl KPuzzle {
             bytes_offset += (orbit_definition.num_pieces as usize) * 2;
         }
 
-        Ok(Self {
+        let kpuzzle = Self {
             data: Arc::new(KPuzzleData {
                 definition,
                 num_bytes: bytes_offset,
@@ -234,7 +234,17 @@ impl KPuzzle {
                     }
                 })?,
             }),
-        })
+        };
+
+        for (r#move, transformation_data) in kpuzzle.definition().moves.iter() {
+            if let Err(e) = KTransformation::try_from_data(&kpuzzle, transformation_data) {
+                return Err(InvalidDefinitionError {
+                    description: format!("Invalid definition for move {}: {}", r#move, e),
+                });
+            }
+        }
+
+        Ok(kpuzzle)
     }
 
     pub fn try_from_json(json_bytes: &[u8]) -> Result<KPuzzle, InvalidDefinitionError> {
-- 
2.43.0


From 90fb503b9fedfa0f8251e1293e46b1a83bdb0443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 09/14] fix: detect recursive derived moves that depend on
 inverted parts of commutators and conjugates

---
 .../src/kpuzzle/packed/derived_moves_validator.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/derived_moves_validator.rs b/cubing_core/src/kpuzzle/packed/derived_moves_validator.rs
index fec8114..a017ae5 100644
--- a/cubing_core/src/kpuzzle/packed/derived_moves_validator.rs
+++ b/cubing_core/src/kpuzzle/packed/derived_moves_validator.rs
@@ -96,12 +96,25 @@ impl DerivedMovesValidator<'_> {
                 self.ancestor_move_keys_in_alg_recursive(&grouping.alg, descendant_move_keys)?
             }
             AlgNode::CommutatorNode(commutator) => {
+                // The inverses are also evaluated, and can depend on different move definitions.
                 self.ancestor_move_keys_in_alg_recursive(&commutator.a, descendant_move_keys)?;
+                self.ancestor_move_keys_in_alg_recursive(
+                    &commutator.a.invert(),
+                    descendant_move_keys,
+                )?;
 
-                self.ancestor_move_keys_in_alg_recursive(&commutator.b, descendant_move_keys)?
+                self.ancestor_move_keys_in_alg_recursive(&commutator.b, descendant_move_keys)?;
+                self.ancestor_move_keys_in_alg_recursive(
+                    &commutator.b.invert(),
+                    descendant_move_keys,
+                )?
             }
             AlgNode::ConjugateNode(conjugate) => {
                 self.ancestor_move_keys_in_alg_recursive(&conjugate.a, descendant_move_keys)?;
+                self.ancestor_move_keys_in_alg_recursive(
+                    &conjugate.a.invert(),
+                    descendant_move_keys,
+                )?;
 
                 self.ancestor_move_keys_in_alg_recursive(&conjugate.b, descendant_move_keys)?
             }
-- 
2.43.0


From ddb52c92d99e7c9fccbc521ba485cdc14eefb50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 10/14] fix: only use special notation for moves it can
 represent when formatting

Formatting moves like `_SLASH_2` or `R_PLUSPLUS_2` returned an error (i.e. `.to_string()` panicked), and moves like `2_SLASH_` or `_PLUS_3` were formatted as a different or invalid move.
---
 cubing_core/src/alg/move.rs | 60 ++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/cubing_core/src/alg/move.rs b/cubing_core/src/alg/move.rs
index 83c2372..65c04de 100644
--- a/cubing_core/src/alg/move.rs
+++ b/cubing_core/src/alg/move.rs
@@ -74,43 +74,41 @@ impl fmt::Display for Move {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         // TODO: memoize these calculations at construction time so we don't have to do it during every serialization?
-        if self.quantum.family == "_SLASH_" {
-            if self.amount != 1 {
-                return Err(std::fmt::Error);
-            };
+        // Note: special notation is only used when it represents the exact same move.
+        if self.quantum.family == "_SLASH_" && self.quantum.prefix.is_none() && self.amount == 1 {
             write!(f, "/")?;
             return Ok(());
         }
         if let Some(family) = self.quantum.family.strip_suffix("_PLUS_") {
-            let suffix = if self.amount < 0 { "-" } else { "+" };
-            write!(
-                f,
-                "{}{}{}",
-                QuantumMove {
-                    family: family.to_owned(),
-                    prefix: self.quantum.prefix.clone()
-                },
-                self.amount.abs(),
-                suffix
-            )?;
-            return Ok(());
+            if !family.is_empty() {
+                let suffix = if self.amount < 0 { "-" } else { "+" };
+                write!(
+                    f,
+                    "{}{}{}",
+                    QuantumMove {
+                        family: family.to_owned(),
+                        prefix: self.quantum.prefix.clone()
+                    },
+                    self.amount.abs(),
+                    suffix
+                )?;
+                return Ok(());
+            }
         }
         if let Some(family) = self.quantum.family.strip_suffix("_PLUSPLUS_") {
-            let suffix = match self.amount {
-                1 => "++",
-                -1 => "--",
-                _ => return Err(std::fmt::Error),
-            };
-            write!(
-                f,
-                "{}{}",
-                QuantumMove {
-                    family: family.to_owned(),
-                    prefix: self.quantum.prefix.clone()
-                },
-                suffix
-            )?;
-            return Ok(());
+            if !family.is_empty() && (self.amount == 1 || self.amount == -1) {
+                let suffix = if self.amount < 0 { "--" } else { "++" };
+                write!(
+                    f,
+                    "{}{}",
+                    QuantumMove {
+                        family: family.to_owned(),
+                        prefix: self.quantum.prefix.clone()
+                    },
+                    suffix
+                )?;
+                return Ok(());
+            }
         }
         write!(f, "{}", self.quantum)?;
         fmt_amount(f, self.amount)
-- 
2.43.0


From 65c51c165501e323359d907a05b7b60f8d8cdbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 11/14] fix: keep the parentheses when formatting a grouping of
 a single commutator or conjugate with an amount of 1

Without an amount, the grouping is otherwise indistinguishable from the commutator or conjugate itself.
---
 cubing_core/src/alg/grouping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 7e53cc8..661b231 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -47,7 +47,7 @@ impl fmt::Display for Grouping {
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut include_parentheses = true;
-        if self.alg.nodes.len() == 1 {
+        if self.alg.nodes.len() == 1 && self.amount != 1 {
             include_parentheses = !matches!(
                 self.alg.nodes[0],
                 super::AlgNode::CommutatorNode(_) | super::AlgNode::ConjugateNode(_)
-- 
2.43.0


From 12bf51993eb0b73387f821d673fda988ce7f6154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 12/14] fix: format a trailing line comment inside brackets so
 that the result can be parsed

For example, this applies when inverting an alg like `[R: // comment\n]`.
---
 cubing_core/src/alg/alg.rs        | 10 ++++++++++
 cubing_core/src/alg/commutator.rs |  6 +++++-
 cubing_core/src/alg/conjugate.rs  |  6 +++++-
 cubing_core/src/alg/grouping.rs   |  2 +-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cubing_core/src/alg/alg.rs b/cubing_core/src/alg/alg.rs
index ae6cb1f..f139109 100644
--- a/cubing_core/src/alg/alg.rs
+++ b/cubing_core/src/alg/alg.rs
@@ -18,6 +18,16 @@ impl Alg {
         let nodes = self.nodes.iter().rev().map(|m| m.invert()).collect();
         Alg { nodes }
     }
+
+    /// Like formatting using `Display`, but makes sure that any text following
+    /// the alg (such as a closing bracket) does not become part of a line comment.
+    pub(crate) fn fmt_nested(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}", self)?;
+        if let Some(AlgNode::LineCommentNode(_)) = self.nodes.last() {
+            writeln!(f)?;
+        }
+        Ok(())
+    }
 }
 
 impl fmt::Display for Alg {
diff --git a/cubing_core/src/alg/commutator.rs b/cubing_core/src/alg/commutator.rs
index 633e58d..6d20f78 100644
--- a/cubing_core/src/alg/commutator.rs
+++ b/cubing_core/src/alg/commutator.rs
@@ -23,6 +23,10 @@ impl fmt::Display for Commutator {
     // TODO: memoize?
     // TODO: dedup with `Move`?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}, {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_nested(f)?;
+        write!(f, ", ")?;
+        self.b.fmt_nested(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/conjugate.rs b/cubing_core/src/alg/conjugate.rs
index fb53fac..ac5f9d8 100644
--- a/cubing_core/src/alg/conjugate.rs
+++ b/cubing_core/src/alg/conjugate.rs
@@ -22,6 +22,10 @@ impl Conjugate {
 impl fmt::Display for Conjugate {
     // TODO: memoize?
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "[{}: {}]", self.a, self.b)
+        write!(f, "[")?;
+        self.a.fmt_nested(f)?;
+        write!(f, ": ")?;
+        self.b.fmt_nested(f)?;
+        write!(f, "]")
     }
 }
diff --git a/cubing_core/src/alg/grouping.rs b/cubing_core/src/alg/grouping.rs
index 661b231..914fad9 100644
--- a/cubing_core/src/alg/grouping.rs
+++ b/cubing_core/src/alg/grouping.rs
@@ -59,7 +59,7 @@ impl fmt::Display for Grouping {
         if include_parentheses {
             write!(f, "(")?;
         }
-        write!(f, "{}", self.alg)?;
+        self.alg.fmt_nested(f)?;
         if include_parentheses {
             write!(f, ")")?;
         }
-- 
2.43.0


From 93e07b364a68d31d6c60845872065253a3522fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 13/14] fix: keep the layer prefix of a move in `parse_move!`

---
 cubing_macros/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cubing_macros/src/lib.rs b/cubing_macros/src/lib.rs
index 6ba1880..370ebc0 100644
--- a/cubing_macros/src/lib.rs
+++ b/cubing_macros/src/lib.rs
@@ -1,7 +1,7 @@
 // TODO: report errors better.
 // Maybe use https://docs.rs/proc-macro-error/latest/proc_macro_error/ ?
 
-use cubing_core::alg::{Alg, Move};
+use cubing_core::alg::{Alg, Move, MovePrefix};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -30,11 +30,23 @@ pub fn parse_move(item: TokenStream) -> TokenStream {
         Ok(r#move) => {
             let move_family = &r#move.quantum.family;
             let move_amount = r#move.amount;
+            let move_prefix = match &r#move.quantum.prefix {
+                None => quote! { None },
+                Some(MovePrefix::Layer(layer)) => {
+                    let layer = layer.layer;
+                    quote! { Some(cubing::alg::MovePrefix::from(#layer)) }
+                }
+                Some(MovePrefix::Range(range)) => {
+                    let outer_layer = range.outer_layer;
+                    let inner_layer = range.inner_layer;
+                    quote! { Some(cubing::alg::MovePrefix::from((#outer_layer, #inner_layer))) }
+                }
+            };
             // TODO: can we avoid constructing the move from scratch every time?
             quote! { cubing::alg::Move {
                 quantum: std::sync::Arc::new(cubing::alg::QuantumMove {
                     family: String::from(#move_family),
-                    prefix: None,
+                    prefix: #move_prefix,
                 }),
                 amount: #move_amount,
             } }
-- 
2.43.0


From a6f1eec16b580a13548ca6bfb982e353479c3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 14/14] fix: do not leave uninitialized entries when inverting
 a transformation that is not a permutation

---
 cubing_core/src/kpuzzle/packed/ktransformation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cubing_core/src/kpuzzle/packed/ktransformation.rs b/cubing_core/src/kpuzzle/packed/ktransformation.rs
index 47950aa..b74b3b5 100644
--- a/cubing_core/src/kpuzzle/packed/ktransformation.rs
+++ b/cubing_core/src/kpuzzle/packed/ktransformation.rs
@@ -285,7 +285,8 @@ impl KTransformation {
     }
 
     pub fn invert(&self) -> KTransformation {
-        let mut new_ktransformation = KTransformation::new_uninitialized(self.kpuzzle().clone());
+        // Setters can leave a transformation that is not a permutation, for which not every entry is written below.
+        let mut new_ktransformation = self.clone();
         for orbit_info in self.kpuzzle().orbit_info_iter() {
             let num_orientations = orbit_info.num_orientations;
 
-- 
2.43.0

