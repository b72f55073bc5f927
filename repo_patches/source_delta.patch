From 9b9d8c06411639518936315a1684d2ef315c7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 01/17] fix: truncate keeps the integer part of negative values

---
 core/src/value.rs | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/core/src/value.rs b/core/src/value.rs
index d0c1eaf..d867f9b 100644
--- a/core/src/value.rs
+++ b/core/src/value.rs
@@ -1,8 +1,6 @@
 use crate::BigDecimalVisitor;
 use crate::TokenId;
-use deps::bigdecimal::{
-    num_bigint::BigInt, BigDecimal, FromPrimitive, One as _, Signed, ToPrimitive, Zero,
-};
+use deps::bigdecimal::{num_bigint::BigInt, BigDecimal, FromPrimitive, Signed, ToPrimitive, Zero};
 use serde::{Deserialize, Serialize};
 use std::{
     fmt,
@@ -160,26 +158,7 @@ impl<Rep> Value<Rep> {
     /// ```
     ///
     pub fn truncate(&self) -> Self {
-        let value = &self.value;
-
-        let value = if value < &BigDecimal::one() {
-            BigDecimal::from(0u64)
-        } else {
-            let value = value.to_string();
-            let mut split = value.split('.');
-
-            if let Some(integer) = split.next() {
-                if let Ok(parsed) = integer.parse() {
-                    parsed
-                } else {
-                    BigDecimal::zero()
-                }
-            } else {
-                BigDecimal::zero()
-            }
-        };
-
-        Self::new(value)
+        Self::new(self.value.with_scale(0))
     }
 }
 
-- 
2.43.0


From a79768edb28cd7c395613c9822b833a53e9b4201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 02/17] fix: a record number past the address space is out of
 range

---
 fraos/src/seqno.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fraos/src/seqno.rs b/fraos/src/seqno.rs
index be3b673..b2dd440 100644
--- a/fraos/src/seqno.rs
+++ b/fraos/src/seqno.rs
@@ -88,7 +88,10 @@ impl SeqNoIndex {
         &self,
         seqno: usize,
     ) -> Result<Option<(usize, usize)>, FraosError> {
-        let offset = seqno * Self::SIZE_OF_USIZE * 2;
+        let offset = match seqno.checked_mul(Self::SIZE_OF_USIZE * 2) {
+            None => return Ok(None),
+            Some(offset) => offset,
+        };
 
         let result = self.inner.get_data(offset, |mmap| {
             let mut offset_buffer = [0u8; Self::SIZE_OF_USIZE];
-- 
2.43.0


From 4cf737118d43c02852ba2e082997f64f545c6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 03/17] fix: dropping a clone keeps the files mapped by the
 others

---
 fraos/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fraos/src/database.rs b/fraos/src/database.rs
index 1860907..050e11d 100644
--- a/fraos/src/database.rs
+++ b/fraos/src/database.rs
@@ -163,6 +163,10 @@ impl Database {
 
 impl Drop for Database {
     fn drop(&mut self) {
+        // other clones still write into the mapped space past the data
+        if Arc::strong_count(&self.write_lock) > 1 {
+            return;
+        }
         let _ = self.seqno_index.shrink_to_size();
         let _ = self.flatfile.shrink_to_size();
     }
-- 
2.43.0


From 1677dbf8915485a2e175f3167d5f6f6ca83642fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:27 +0000
Subject: [PATCH 04/17] fix: a failed append leaves the storage as it was

---
 fraos/src/growable_mmap.rs | 128 +++++++++++++++++--------------------
 fraos/src/shared_mmap.rs   |  12 ++--
 2 files changed, 68 insertions(+), 72 deletions(-)

diff --git a/fraos/src/growable_mmap.rs b/fraos/src/growable_mmap.rs
index 39bfcb3..f0777b9 100644
--- a/fraos/src/growable_mmap.rs
+++ b/fraos/src/growable_mmap.rs
@@ -5,7 +5,7 @@ use memmap2::{MmapMut, MmapOptions};
 use std::cmp::max;
 
 use std::fs::File;
-use std::mem::swap;
+use std::ops::Range;
 use std::sync::{RwLock, RwLockWriteGuard};
 
 const MAX_MMAPS_COUNT: usize = 2048;
@@ -112,89 +112,81 @@ impl GrowableMmap {
             }
         })?;
 
-        let start_write_from = match &mut storage_guard.active_map {
-            None => {
+        let storage = &mut *storage_guard;
+
+        // nothing is recorded before the data is in place, so that a failure leaves everything
+        // as it was
+        match &mut storage.active_map {
+            // if we have enough space use active mmap
+            Some(active_mmap) if active_mmap.bounds.size() + extension < active_mmap.len => {
+                let current_mmap_end = active_mmap.bounds.size();
+                Self::write(
+                    &mut active_mmap.mmap,
+                    current_mmap_end..current_mmap_end + extension,
+                    f,
+                )?;
+                active_mmap
+                    .bounds
+                    .append_relative_end(current_mmap_end + extension)
+                    .map_err(FraosError::IndexError)?;
+            }
+            _ => {
                 let new_mmap_size = self.get_new_mmap_size(extension);
-                // inactive size
-                let already_mapped = storage_guard.inactive_mmaps.index.len();
+                // offset is inactive part + current active part
+                let already_mapped = match &storage.active_map {
+                    None => storage.inactive_mmaps.index.len(),
+                    Some(active_mmap) => active_mmap.bounds.global_chunk_end(),
+                };
 
                 // create mmap and flush
-                let new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
+                let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
+                Self::write(&mut new_mmap, 0..extension, f)?;
 
                 // create index on active mmap
-                let mut single_mmap_index = MmapChunkAddressMapper::new(already_mapped);
-                single_mmap_index
+                let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
+                new_bounds
                     .append_relative_end(extension)
                     .map_err(FraosError::IndexError)?;
 
-                storage_guard.active_map = Some(ActiveMmap {
-                    len: new_mmap_size,
-                    mmap: new_mmap,
-                    bounds: single_mmap_index,
-                });
-
-                0usize
-            }
-            Some(active_mmap) => {
-                let current_mmap_end = active_mmap.bounds.size();
-
-                // if we have enough space use active mmap
-                if current_mmap_end + extension < active_mmap.len {
-                    active_mmap
-                        .bounds
-                        .append_relative_end(current_mmap_end + extension)
-                        .map_err(FraosError::IndexError)?;
-                    current_mmap_end
-                } else {
-                    let new_mmap_size = self.get_new_mmap_size(extension);
-                    // offset is inactive part + current active part
-                    let already_mapped = active_mmap.bounds.global_chunk_end();
-
-                    let mut new_mmap = self.create_mmap(new_mmap_size, already_mapped)?;
-
-                    // replace active mmap with new mmap
-                    swap(&mut new_mmap, &mut active_mmap.mmap);
-                    active_mmap.len = new_mmap_size;
-
-                    let mut new_bounds = MmapChunkAddressMapper::new(already_mapped);
-                    new_bounds
-                        .append_relative_end(extension)
-                        .map_err(FraosError::IndexError)?;
-                    swap(&mut new_bounds, &mut active_mmap.bounds);
-
-                    // add old replaced active mmap to inactive mmaps
-                    storage_guard
+                // replace active mmap with new mmap, add the replaced one to inactive mmaps
+                if let Some(replaced) = storage.active_map.take() {
+                    let size = replaced.bounds.size();
+                    storage
                         .inactive_mmaps
                         .index
-                        .append(new_bounds)
+                        .append(replaced.bounds)
                         .map_err(FraosError::IndexError)?;
-                    storage_guard.inactive_mmaps.maps.push(
-                        SharedMmap::new(
-                            new_mmap
-                                .make_read_only()
-                                .map_err(|err| FraosError::MmapError(MmapError::Protect(err)))?,
-                        )
-                        .slice(..current_mmap_end),
-                    );
-
-                    0usize
+                    storage
+                        .inactive_mmaps
+                        .maps
+                        .push(SharedMmap::new(replaced.mmap).slice(..size));
                 }
+                storage.active_map = Some(ActiveMmap {
+                    len: new_mmap_size,
+                    mmap: new_mmap,
+                    bounds: new_bounds,
+                });
             }
-        };
+        }
 
-        match storage_guard.active_map.as_mut() {
-            None => return Err(FraosError::DataFileDamaged),
-            Some(active_mmap) => {
-                f(&mut active_mmap.mmap.as_mut()[start_write_from..])?;
+        // the data is in place; if this fails it is tried again after the next write
+        let _ = self.rearrange_mmaps(storage_guard);
+        Ok(())
+    }
 
-                active_mmap
-                    .mmap
-                    .flush()
-                    .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))?;
-            }
+    /// Let `f` write into the range and flush. Nothing stays in the range if that fails.
+    fn write<F>(mmap: &mut MmapMut, range: Range<usize>, f: F) -> Result<(), FraosError>
+    where
+        F: Fn(&mut [u8]) -> Result<(), FraosError>,
+    {
+        let result = f(&mut mmap[range.start..]).and_then(|()| {
+            mmap.flush()
+                .map_err(|err| FraosError::MmapError(MmapError::Flush(err)))
+        });
+        if result.is_err() {
+            mmap[range].fill(0);
         }
-
-        self.rearrange_mmaps(storage_guard)
+        result
     }
 
     pub fn get_ref_and_apply<F, U>(&self, address: usize, f: F) -> Result<Option<U>, FraosError>
diff --git a/fraos/src/shared_mmap.rs b/fraos/src/shared_mmap.rs
index ab8492c..65e4c0a 100644
--- a/fraos/src/shared_mmap.rs
+++ b/fraos/src/shared_mmap.rs
@@ -1,6 +1,6 @@
-use memmap2::Mmap;
 use std::{
-    ops::{Bound::*, RangeBounds},
+    any::Any,
+    ops::{Bound::*, Deref, RangeBounds},
     slice,
     sync::Arc,
 };
@@ -8,13 +8,17 @@ use std::{
 /// A structure that implements a view into memory mapping.
 #[derive(Debug, Clone)]
 pub struct SharedMmap {
-    mmap: Arc<Mmap>,
+    // a mmap of either kind: it is only read from here on
+    mmap: Arc<dyn Any + Send + Sync>,
     len: usize,
     slice: *const u8,
 }
 
 impl SharedMmap {
-    pub(crate) fn new(mmap: Mmap) -> SharedMmap {
+    pub(crate) fn new<M>(mmap: M) -> SharedMmap
+    where
+        M: Deref<Target = [u8]> + Any + Send + Sync,
+    {
         let len = mmap.len();
         let slice = mmap.as_ptr();
         SharedMmap {
-- 
2.43.0


From 9431a8c4b8d94d27975c9c2678f8c6640ce67719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 05/17] fix: refuse change that does not cover its own fee

---
 .../src/algorithms/balance_change_single_output.rs          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utxo-selection/src/algorithms/balance_change_single_output.rs b/utxo-selection/src/algorithms/balance_change_single_output.rs
index e04a411..f810879 100644
--- a/utxo-selection/src/algorithms/balance_change_single_output.rs
+++ b/utxo-selection/src/algorithms/balance_change_single_output.rs
@@ -110,6 +110,12 @@ impl InputSelectionAlgorithm for SingleOutputChangeBalancer {
         };
 
         let fee_for_change = estimator.fee_for_output(&change)?;
+        if change.value < fee_for_change {
+            return Err(anyhow!(
+                "there's lack of main asset selected, can't cover the fee of the change: {}",
+                fee_for_change
+            ));
+        }
         change.value -= &fee_for_change;
         fee += &fee_for_change;
 
-- 
2.43.0


From 01e08bdee7d98239a9d9598320543631e35f3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 06/17] fix: newly offered inputs are the available ones

---
 utxo-selection/src/algorithms/random_improve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 26a32c4..6465a4e 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -47,7 +47,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         &mut self,
         available_inputs: Vec<Self::InputUtxo>,
     ) -> anyhow::Result<()> {
-        let _available_indices = BTreeSet::from_iter(0..available_inputs.len());
+        self.available_indices = BTreeSet::from_iter(0..available_inputs.len());
         self.available_inputs = available_inputs;
         Ok(())
     }
-- 
2.43.0


From 4b02797b64071737bee990b4f54313e2e6fcac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 07/17] fix: random improve covers the fee

---
 utxo-selection/src/algorithms/random_improve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 6465a4e..0de0a9d 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -1,5 +1,5 @@
 use crate::algorithm::InputSelectionAlgorithm;
-use crate::common::{InputOutputSetup, InputSelectionResult};
+use crate::common::{calculate_main_token_balance, InputOutputSetup, InputSelectionResult};
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
@@ -131,7 +131,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // Phase 3: add extra inputs needed for fees (not covered by CIP-2)
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
-        while input_balance < output_balance {
+        while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
             if self.available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-- 
2.43.0


From 4fa1d29a14876786bef26490fd5066ad52b438dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 08/17] fix: a failed selection leaves the available inputs

---
 utxo-selection/src/algorithms/random_improve.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 0de0a9d..5257beb 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -69,6 +69,8 @@ impl InputSelectionAlgorithm for RandomImprove {
         let explicit_outputs = input_output_setup.fixed_outputs.clone();
 
         let mut chosen_indices = HashSet::<usize>::new();
+        // the inputs stay available unless the selection succeeds
+        let mut available_indices = self.available_indices.clone();
 
         let mut rng = rand::thread_rng();
         let mut policy_ids_to_asset_names = asset_output_balance
@@ -87,7 +89,7 @@ impl InputSelectionAlgorithm for RandomImprove {
             let token = TokenId::new(format!("{policy_id}:{asset_name}"));
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
-                &mut self.available_indices,
+                &mut available_indices,
                 &explicit_outputs,
                 estimator,
                 &mut asset_input_balance,
@@ -116,7 +118,7 @@ impl InputSelectionAlgorithm for RandomImprove {
         // add in remaining ADA
         let ada_chosen_indices = select_input_and_update_balances(
             &self.available_inputs,
-            &mut self.available_indices,
+            &mut available_indices,
             &explicit_outputs,
             estimator,
             &mut asset_input_balance,
@@ -132,15 +134,14 @@ impl InputSelectionAlgorithm for RandomImprove {
         // We do this at the end because this new inputs won't be associated with
         // a specific output, so the improvement algorithm we do above does not apply here.
         while calculate_main_token_balance(&input_balance, &output_balance, &fee).in_debt() {
-            if self.available_indices.is_empty() {
+            if available_indices.is_empty() {
                 return Err(anyhow!("UTxO Balance Insufficient[x]"));
             }
-            let i = *self
-                .available_indices
+            let i = *available_indices
                 .iter()
-                .nth(rng.gen_range(0..self.available_indices.len()))
+                .nth(rng.gen_range(0..available_indices.len()))
                 .unwrap();
-            self.available_indices.remove(&i);
+            available_indices.remove(&i);
             let input = &self.available_inputs[i];
             let input_fee = estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
@@ -159,6 +160,8 @@ impl InputSelectionAlgorithm for RandomImprove {
             chosen_indices.insert(i);
         }
 
+        self.available_indices = available_indices;
+
         Ok(InputSelectionResult {
             fixed_inputs: input_output_setup.fixed_inputs,
             fixed_outputs: input_output_setup.fixed_outputs,
-- 
2.43.0


From 605398034a0e7eaa54286c5f8e8143f4955d7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 09/17] fix: random improve keeps the inputs of equal outputs
 apart

---
 .../src/algorithms/random_improve.rs          | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 5257beb..0c596b3 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -7,7 +7,7 @@ use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
 use deps::bigdecimal::ToPrimitive;
 use rand::Rng;
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
     available_inputs: Vec<UTxODetails>,
@@ -217,14 +217,15 @@ where
         .cloned()
         .collect::<Vec<usize>>();
 
-    let mut associated_indices: BTreeMap<UTxOBuilder, Vec<usize>> = BTreeMap::new();
     let mut outputs = explicit_outputs
         .iter()
         .filter(|output| by_output(output).is_some())
         .cloned()
         .collect::<Vec<UTxOBuilder>>();
     outputs.sort_by_key(|output| by_output(output).expect("filtered above"));
-    for output in outputs.iter().rev() {
+    // the inputs chosen for each of the outputs
+    let mut associated_indices: Vec<Vec<usize>> = vec![Vec::new(); outputs.len()];
+    for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()).rev() {
         // TODO: how should we adapt this to inputs being associated when running for other assets?
         // if we do these two phases for each asset and don't take into account the other runs for other assets
         // then we over-add (and potentially fail if we don't have plenty of inputs)
@@ -253,19 +254,13 @@ where
             let input = &available_inputs[i];
             added +=
                 &by_input(input).expect("do not call on asset types that aren't in the output");
-            associated_indices
-                .entry(output.clone())
-                .or_default()
-                .push(i);
+            associated.push(i);
         }
     }
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
-        for output in outputs.iter_mut() {
-            let associated = associated_indices
-                .get_mut(output)
-                .ok_or_else(|| anyhow!("Associated index by output key not found"))?;
+        for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
@@ -295,12 +290,8 @@ where
     }
 
     // after finalizing the improvement we need to actually add these results to the builder
-    for output in outputs.iter() {
-        for i in associated_indices
-            .get(output)
-            .ok_or_else(|| anyhow!("Transaction output key not found"))?
-            .iter()
-        {
+    for associated in associated_indices.iter() {
+        for i in associated.iter() {
             let input = &available_inputs[*i];
             let input_fee = &estimator.fee_for_input(input)?;
             estimator.add_input(input.clone())?;
-- 
2.43.0


From f3b92433bc416d1c3b73d189edb11afe8aafae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 10/17] fix: random improve selects inputs for the tokens of
 the outputs

---
 .../src/algorithms/random_improve.rs          | 68 +++++++++++--------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/utxo-selection/src/algorithms/random_improve.rs b/utxo-selection/src/algorithms/random_improve.rs
index 0c596b3..c9f8df7 100644
--- a/utxo-selection/src/algorithms/random_improve.rs
+++ b/utxo-selection/src/algorithms/random_improve.rs
@@ -3,10 +3,8 @@ use crate::common::{calculate_main_token_balance, InputOutputSetup, InputSelecti
 use crate::estimate::TransactionFeeEstimator;
 use anyhow::anyhow;
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{AssetName, PolicyId, Regulated, TokenId, UTxOStore};
-use deps::bigdecimal::ToPrimitive;
+use dcspark_core::{Regulated, TokenId, UTxOStore};
 use rand::Rng;
-use std::cmp::Ordering;
 use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub struct RandomImprove {
@@ -73,20 +71,13 @@ impl InputSelectionAlgorithm for RandomImprove {
         let mut available_indices = self.available_indices.clone();
 
         let mut rng = rand::thread_rng();
-        let mut policy_ids_to_asset_names = asset_output_balance
-            .values()
-            .map(|asset: &TransactionAsset| (asset.policy_id.clone(), asset.asset_name.clone()))
-            .collect::<Vec<(PolicyId, AssetName)>>();
-        policy_ids_to_asset_names.sort_by(
-            |left: &(PolicyId, AssetName), right: &(PolicyId, AssetName)| match left.0.cmp(&right.0)
-            {
-                Ordering::Equal => left.1.cmp(&right.1),
-                x => x,
-            },
-        );
-
-        for (policy_id, asset_name) in policy_ids_to_asset_names.iter() {
-            let token = TokenId::new(format!("{policy_id}:{asset_name}"));
+        let mut assets = asset_output_balance.values().collect::<Vec<_>>();
+        assets.sort_by(|left, right| {
+            (&left.policy_id, &left.asset_name).cmp(&(&right.policy_id, &right.asset_name))
+        });
+
+        for asset in assets {
+            let token = &asset.fingerprint;
             let asset_chosen_indices = select_input_and_update_balances(
                 &self.available_inputs,
                 &mut available_indices,
@@ -99,14 +90,14 @@ impl InputSelectionAlgorithm for RandomImprove {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 |value: &UTxOBuilder| {
                     value
                         .assets
                         .iter()
-                        .find(|asset| asset.fingerprint == token)
+                        .find(|asset| &asset.fingerprint == token)
                         .map(|asset| asset.quantity.clone())
                 },
                 &mut rng,
@@ -187,6 +178,17 @@ impl InputSelectionAlgorithm for RandomImprove {
     }
 }
 
+fn distance(
+    left: &dcspark_core::Value<Regulated>,
+    right: &dcspark_core::Value<Regulated>,
+) -> dcspark_core::Value<Regulated> {
+    if left < right {
+        right - left
+    } else {
+        left - right
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn select_input_and_update_balances<
     Estimate: TransactionFeeEstimator<InputUtxo = UTxODetails, OutputUtxo = UTxOBuilder>,
@@ -260,27 +262,35 @@ where
 
     if !relevant_indices.is_empty() {
         // Phase 2: Improvement
+        let amount_of = |i: usize| {
+            by_input(&available_inputs[i])
+                .ok_or_else(|| anyhow!("Transaction input proper amount is not found"))
+        };
         for (output, associated) in outputs.iter().zip(associated_indices.iter_mut()) {
+            let min = by_output(output)
+                .ok_or_else(|| anyhow!("Transaction output proper amount is not found"))?;
+            let mut added = dcspark_core::Value::zero();
+            for i in associated.iter() {
+                added += &amount_of(*i)?;
+            }
             for i in associated.iter_mut() {
                 let random_index = rng.gen_range(0..relevant_indices.len());
                 let j: &mut usize = relevant_indices
                     .get_mut(random_index)
                     .ok_or_else(|| anyhow!("Relevant index by random index not found"))?;
                 let should_improve = {
-                    let input = &available_inputs[*i];
-                    let new_input = &available_inputs[*j];
-                    let cur = input.value.raw().to_u64().unwrap();
-                    let new = new_input.value.raw().to_u64().unwrap();
-                    let min = output.value.raw().to_u64().unwrap();
-                    let ideal = 2 * min;
-                    let max = 3 * min;
-                    let move_closer =
-                        (ideal as i128 - new as i128).abs() < (ideal as i128 - cur as i128).abs();
+                    let cur = amount_of(*i)?;
+                    let new = amount_of(*j)?;
+                    let ideal = &min + &min;
+                    let max = &ideal + &min;
+                    let move_closer = distance(&ideal, &new) < distance(&ideal, &cur);
                     let not_exceed_max = new < max;
+                    let still_covered = &added - &cur + &new >= min;
 
-                    move_closer && not_exceed_max
+                    move_closer && not_exceed_max && still_covered
                 };
                 if should_improve {
+                    added = &added - &amount_of(*i)? + &amount_of(*j)?;
                     available_indices.insert(*i);
                     available_indices.remove(j);
                     std::mem::swap(i, j);
-- 
2.43.0


From c8fbaa51e59c8e61588b24dd134c678aa982dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 11/17] fix: an accumulator that is not split keeps its tokens

---
 utxo-selection/src/algorithms/thermostat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index d1f322c..51800e5 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -420,7 +420,7 @@ impl Thermostat {
                     if asset.quantity > pivot {
                         let quantity = &mut new.assets.get_mut(0).unwrap().quantity;
                         *quantity = (quantity.clone() / 2).truncate();
-                        asset.quantity -= quantity.clone();
+                        let quantity = quantity.clone();
 
                         let fee_for_output = estimate.fee_for_output(&new)?;
                         let fee_new = (&fee_for_output / 2).truncate();
@@ -430,6 +430,8 @@ impl Thermostat {
                             continue;
                         }
 
+                        asset.quantity -= quantity;
+
                         // new.value + change.value + fee_for_output = original value
                         // (original valuye / 2 - fee_new) + (original value - original_value / 2 + fee_new - (fee_new + (fee_for_output - fee_new)) + fee_for_output =? original value
 
-- 
2.43.0


From 18b21813f90fef946852100dc2919e7a85662368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 12/17] fix: thermostat accepts inputs that cost no fee

---
 utxo-selection/src/algorithms/thermostat.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 51800e5..2074400 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -96,10 +96,12 @@ impl Thermostat {
         // in two in order to preserver distribution
         let reserved_room = reserved_room * 2;
 
-        Ok(estimate
+        let room = estimate
             .max_size()?
-            .saturating_sub(estimate.current_size()?.saturating_add(reserved_room))
-            / size_of_one_input)
+            .saturating_sub(estimate.current_size()?.saturating_add(reserved_room));
+
+        // inputs without a cost all fit
+        Ok(room.checked_div(size_of_one_input).unwrap_or(room))
     }
 
     fn add_input(&mut self, input: UTxODetails) {
-- 
2.43.0


From 631fbc3c2e290ad467505fcdb73766ecf7a91562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 13/17] fix: thermostat returns the tokens of fixed inputs that
 are not available elsewhere

---
 utxo-selection/src/algorithms/thermostat.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utxo-selection/src/algorithms/thermostat.rs b/utxo-selection/src/algorithms/thermostat.rs
index 2074400..4e69df3 100644
--- a/utxo-selection/src/algorithms/thermostat.rs
+++ b/utxo-selection/src/algorithms/thermostat.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use anyhow::{anyhow, Context};
 use dcspark_core::tx::{TransactionAsset, UTxOBuilder, UTxODetails};
-use dcspark_core::{Address, Balance, Regulated, TokenId, UTxOStore, Value};
+use dcspark_core::{Address, AssetName, Balance, PolicyId, Regulated, TokenId, UTxOStore, Value};
 use deps::bigdecimal::ToPrimitive;
 use serde::Deserialize;
 use std::collections::hash_map::Entry;
@@ -43,6 +43,8 @@ pub struct Thermostat {
 
     balance: Balance<Regulated>,
     asset_balance: HashMap<TokenId, Balance<Regulated>>,
+    /// the assets of the fixed inputs, which may not be among the available UTxOs
+    fixed_assets: HashMap<TokenId, (PolicyId, AssetName)>,
     config: ThermostatAlgoConfig,
     available_utxos: UTxOStore,
 }
@@ -61,6 +63,7 @@ impl Thermostat {
             selected_inputs_value: Value::zero(),
             balance: Balance::Balanced,
             asset_balance: HashMap::new(),
+            fixed_assets: HashMap::new(),
             config,
             available_utxos: Default::default(),
         }
@@ -309,6 +312,7 @@ impl Thermostat {
                 } else {
                     let (policy_id, asset_name) = utxos
                         .get_asset_ids(&asset)
+                        .or_else(|| self.fixed_assets.get(&asset))
                         .cloned()
                         .expect("Always expect to retrieve the policy_id/asset_name");
 
@@ -573,6 +577,7 @@ impl Thermostat {
         self.selected_inputs_value = Value::zero();
         self.balance = Balance::Balanced;
         self.asset_balance = HashMap::new();
+        self.fixed_assets = HashMap::new();
     }
 }
 
@@ -603,6 +608,10 @@ impl InputSelectionAlgorithm for Thermostat {
         self.reset();
         self.outputs = input_output_setup.fixed_outputs.clone();
         for (token, asset) in input_output_setup.input_asset_balance.iter() {
+            self.fixed_assets.insert(
+                token.clone(),
+                (asset.policy_id.clone(), asset.asset_name.clone()),
+            );
             *self
                 .asset_balance
                 .entry(token.clone())
-- 
2.43.0


From abcf77449b1941d2e00f26211db03fa3c4e42ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 14/17] fix: iterate over all the blocks of the same number

---
 multiverse/src/visitor/depth_ordered.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/visitor/depth_ordered.rs b/multiverse/src/visitor/depth_ordered.rs
index 330628d..2241a37 100644
--- a/multiverse/src/visitor/depth_ordered.rs
+++ b/multiverse/src/visitor/depth_ordered.rs
@@ -32,7 +32,9 @@ where
             let (bn, set) = self.tree.iter_mut().next()?;
             let bn = *bn;
 
-            if let Some(entry_ref) = set.drain().next() {
+            // only take one entry out: dropping a `drain` would drop the others
+            if let Some(entry_ref) = set.iter().next().cloned() {
+                set.remove(&entry_ref);
                 let entry = self.inner.all.get(&entry_ref)?;
                 return Some(&entry.value);
             }
-- 
2.43.0


From b74257349c65c97e349c8e815aa592f4f618603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 15/17] fix: select a best block when its ancestors were
 removed

---
 multiverse/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/multiverse/src/lib.rs b/multiverse/src/lib.rs
index 7acbbe8..a2b7104 100644
--- a/multiverse/src/lib.rs
+++ b/multiverse/src/lib.rs
@@ -475,7 +475,15 @@ where
                 .get(&ancestor)
                 .expect("Entry should be already there at this point");
 
-            ancestor = entry.parent.upgrade()?;
+            let parent = entry.parent.upgrade()?;
+
+            // the parent may be removed already, while some reference
+            // to it is still held outside of the multiverse
+            if !self.all.contains_key(&parent) {
+                return None;
+            }
+
+            ancestor = parent;
         }
 
         Some(ancestor)
-- 
2.43.0


From ae907484210970efa22d4ff4b2d44018e48fdf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 16/17] fix: a key of an indexed log could be left at the older
 of two values appended concurrently

---
 indexed-log-map/src/storage.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/indexed-log-map/src/storage.rs b/indexed-log-map/src/storage.rs
index f1bc521..aa68d23 100644
--- a/indexed-log-map/src/storage.rs
+++ b/indexed-log-map/src/storage.rs
@@ -77,14 +77,25 @@ impl<Key: Serialize + DeserializeOwned, Value: Serialize + DeserializeOwned>
         match index {
             None => Err(anyhow!("Value is not inserted")),
             Some(position) => {
+                let encoded = deps::serde_json::to_vec(&position)
+                    .context("we should always be able to encode")?;
                 self.key_to_seqno
                     .as_ref()
                     .unwrap()
-                    .insert(
-                        serialized_key.as_slice(),
-                        deps::serde_json::to_vec(&position)
-                            .context("we should always be able to encode")?,
-                    )
+                    .fetch_and_update(serialized_key.as_slice(), |current| {
+                        // another thread may have appended a later value and indexed it already
+                        match current {
+                            Some(current)
+                                if matches!(
+                                    deps::serde_json::from_slice::<usize>(current),
+                                    Ok(current) if current > position
+                                ) =>
+                            {
+                                Some(current.to_vec())
+                            }
+                            _ => Some(encoded.clone()),
+                        }
+                    })
                     .context("can't insert key mapping into index")?;
                 Ok(())
             }
-- 
2.43.0


From 91142e16ee77885abda2e11f92b76fe26c4830d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 17/17] fix: fork handling pulled from the beginning panicked
 on the first block

---
 blockchain-source/src/multiverse/rollback.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blockchain-source/src/multiverse/rollback.rs b/blockchain-source/src/multiverse/rollback.rs
index 5abf862..c42315c 100644
--- a/blockchain-source/src/multiverse/rollback.rs
+++ b/blockchain-source/src/multiverse/rollback.rs
@@ -208,11 +208,14 @@ where
             self.events
                 .pop()
                 .expect("no common ancestor between branches")
-        } else {
+        } else if let Some(from) = from {
             // if the db is empty, send a rollback event to the `from` argument, just to be
             // safe
             self.events.push(Event::InnerEvent(block));
-            Event::Rollback(from.as_ref().unwrap().clone())
+            Event::Rollback(from.clone())
+        } else {
+            // pulling from the beginning: there is nothing to roll back to
+            Event::InnerEvent(block)
         };
 
         Ok(Some(new_event))
-- 
2.43.0

