From 7f1fdf02d0a6591bc564d5ae1a5d2c58442f8db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 01/34] fix: measure a voluntary exit's service period from the
 activation epoch

---
 ethereum-consensus/src/deneb/block_processing.rs   | 3 +--
 ethereum-consensus/src/electra/block_processing.rs | 3 +--
 ethereum-consensus/src/phase0/block_processing.rs  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/deneb/block_processing.rs b/ethereum-consensus/src/deneb/block_processing.rs
index 2e57c71..3afdb73 100644
--- a/ethereum-consensus/src/deneb/block_processing.rs
+++ b/ethereum-consensus/src/deneb/block_processing.rs
@@ -320,8 +320,7 @@ pub fn process_voluntary_exit<
             InvalidVoluntaryExit::EarlyExit { current_epoch, exit_epoch: voluntary_exit.epoch },
         )))
     }
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 302b6eb..8210b9b 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -819,8 +819,7 @@ pub fn process_voluntary_exit<
         )));
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index 3570de0..cc0c4a2 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -497,8 +497,7 @@ pub fn process_voluntary_exit<
         )))
     }
 
-    let minimum_time_active =
-        validator.activation_eligibility_epoch + context.shard_committee_period;
+    let minimum_time_active = validator.activation_epoch + context.shard_committee_period;
     if current_epoch < minimum_time_active {
         return Err(invalid_operation_error(InvalidOperation::VoluntaryExit(
             InvalidVoluntaryExit::ValidatorIsNotActiveForLongEnough {
-- 
2.43.0


From d2ae72e7c9bd9e6ed466881d676fdc1b54b2cae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 02/34] fix: give the proposer its share of the whistleblower
 reward

---
 ethereum-consensus/src/altair/helpers.rs    | 3 +--
 ethereum-consensus/src/bellatrix/helpers.rs | 3 +--
 ethereum-consensus/src/electra/helpers.rs   | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ethereum-consensus/src/altair/helpers.rs b/ethereum-consensus/src/altair/helpers.rs
index 9c7f9b4..69338b8 100644
--- a/ethereum-consensus/src/altair/helpers.rs
+++ b/ethereum-consensus/src/altair/helpers.rs
@@ -403,8 +403,7 @@ pub fn slash_validator<
 
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/bellatrix/helpers.rs b/ethereum-consensus/src/bellatrix/helpers.rs
index dcf7e47..3de78f8 100644
--- a/ethereum-consensus/src/bellatrix/helpers.rs
+++ b/ethereum-consensus/src/bellatrix/helpers.rs
@@ -105,8 +105,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward =
         state.validators[slashed_index].effective_balance / context.whistleblower_reward_quotient;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 2495cdb..8ad7dba 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -701,8 +701,7 @@ pub fn slash_validator<
     let whistleblower_index = whistleblower_index.unwrap_or(proposer_index);
     let whistleblower_reward = state.validators[slashed_index].effective_balance /
         context.whistleblower_reward_quotient_electra;
-    let proposer_reward_scaling_factor = PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
-    let proposer_reward = whistleblower_reward * proposer_reward_scaling_factor;
+    let proposer_reward = whistleblower_reward * PROPOSER_WEIGHT / WEIGHT_DENOMINATOR;
     increase_balance(state, proposer_index, proposer_reward);
     increase_balance(state, whistleblower_index, whistleblower_reward - proposer_reward);
     Ok(())
-- 
2.43.0


From ad2a18716ff9e5ef9bdffd50764d29c2b6664a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 03/34] fix: ignore electra deposits with an invalid signature
 instead of failing

---
 .../src/electra/block_processing.rs           | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 8210b9b..ff0da00 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -654,34 +654,37 @@ pub fn apply_deposit<
     context: &Context,
 ) -> Result<(), Error> {
     let validator = state.validators.iter().enumerate().find(|(_, v)| v.public_key == *public_key);
-    if let Some((index, validator)) = validator {
-        state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
-
+    // NOTE: an invalid deposit signature does not invalidate the block
+    let is_valid_signature = || {
         is_valid_deposit_signature(
             public_key,
             withdrawal_credentials.clone(),
             amount,
             signature,
             context,
-        )?;
+        )
+        .is_ok()
+    };
+    if let Some((index, validator)) = validator {
+        state.pending_balance_deposits.push(PendingBalanceDeposit { index, amount });
 
-        // NOTE: if we did not return from signature check, then we know the signature is valid
         if is_compounding_withdrawal_credential(withdrawal_credentials) &&
-            has_eth1_withdrawal_credential(validator)
+            has_eth1_withdrawal_credential(validator) &&
+            is_valid_signature()
         {
             switch_to_compounding_validator(state, index, context)?;
         }
         return Ok(());
     }
 
-    is_valid_deposit_signature(
-        public_key,
-        withdrawal_credentials.clone(),
-        amount,
-        signature,
-        context,
-    )?;
-    add_validator_to_registry(state, public_key.clone(), withdrawal_credentials.clone(), amount);
+    if is_valid_signature() {
+        add_validator_to_registry(
+            state,
+            public_key.clone(),
+            withdrawal_credentials.clone(),
+            amount,
+        );
+    }
     Ok(())
 }
 
-- 
2.43.0


From a95e61149baf7bc5d0876e3d069b233c9b0836da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 04/34] fix: accept the outstanding deposits in electra blocks
 and refuse others

---
 ethereum-consensus/src/electra/block_processing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index ff0da00..e2c1722 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -448,11 +448,11 @@ pub fn process_operations<
             return Err(invalid_operation_error(InvalidOperation::Deposit(
                 InvalidDeposit::IncorrectCount { expected, count: body.deposits.len() },
             )));
-        } else if !body.deposits.is_empty() {
-            return Err(invalid_operation_error(InvalidOperation::Deposit(
-                InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
-            )));
         }
+    } else if !body.deposits.is_empty() {
+        return Err(invalid_operation_error(InvalidOperation::Deposit(
+            InvalidDeposit::IncorrectCount { expected: 0, count: body.deposits.len() },
+        )));
     }
 
     body.proposer_slashings
-- 
2.43.0


From b6f3ff6c377a0de41fc8e418d0dda13de052691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 05/34] fix: debit a pending partial withdrawal from its own
 validator

---
 ethereum-consensus/src/electra/block_processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index e2c1722..2ec33ad 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -91,7 +91,7 @@ pub fn get_expected_withdrawals<
             withdrawal_address.copy_from_slice(&validator.withdrawal_credentials[12..]);
             let withdrawal = Withdrawal {
                 index: withdrawal_index,
-                validator_index,
+                validator_index: withdrawal.index,
                 address: withdrawal_address,
                 amount: withdrawable_balance,
             };
-- 
2.43.0


From 27f15feece26c17d6ed9b1d257e9ca6b231ef05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 06/34] fix: pay pending partial withdrawals at exactly the
 minimum effective balance

---
 ethereum-consensus/src/electra/block_processing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 2ec33ad..e790985 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -79,7 +79,7 @@ pub fn get_expected_withdrawals<
         let balance = state.balances[withdrawal.index];
 
         let has_sufficient_effective_balance =
-            validator.effective_balance > context.min_activation_balance;
+            validator.effective_balance >= context.min_activation_balance;
         let has_excess_balance = balance > context.min_activation_balance;
         if validator.exit_epoch == FAR_FUTURE_EPOCH &&
             has_sufficient_effective_balance &&
-- 
2.43.0


From ad76a6abe54ec8e2668c82e6574c8e23f0f9b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 07/34] fix: continue the electra withdrawal sweep after the
 last withdrawn validator

---
 ethereum-consensus/src/electra/block_processing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index e790985..313de30 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -206,8 +206,9 @@ pub fn process_withdrawals<
     }
 
     if expected_withdrawals.len() == context.max_withdrawals_per_payload {
-        let next_validator_index =
-            expected_withdrawals.last().map(|latest| (latest.index + 1) % state.validators.len());
+        let next_validator_index = expected_withdrawals
+            .last()
+            .map(|latest| (latest.validator_index + 1) % state.validators.len());
         state.next_withdrawal_validator_index =
             next_validator_index.unwrap_or(state.next_withdrawal_validator_index);
     } else {
-- 
2.43.0


From 8bbcf21f9d24e6850cd0ec537b0902d498af49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 08/34] fix: delay a consolidated validator's withdrawal from
 its new exit epoch

---
 ethereum-consensus/src/electra/block_processing.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ethereum-consensus/src/electra/block_processing.rs b/ethereum-consensus/src/electra/block_processing.rs
index 313de30..f918a0f 100644
--- a/ethereum-consensus/src/electra/block_processing.rs
+++ b/ethereum-consensus/src/electra/block_processing.rs
@@ -1138,14 +1138,14 @@ pub fn process_consolidation<
     let public_keys = [&source_validator.public_key, &target_validator.public_key];
     fast_aggregate_verify(&public_keys[..], &signing_root[..], &signed_consolidation.signature)?;
 
-    state.validators[consolidation.source_index].exit_epoch =
-        compute_consolidation_epoch_and_update_churn(
-            state,
-            source_validator.effective_balance,
-            context,
-        )?;
+    let exit_epoch = compute_consolidation_epoch_and_update_churn(
+        state,
+        source_validator.effective_balance,
+        context,
+    )?;
+    state.validators[consolidation.source_index].exit_epoch = exit_epoch;
     state.validators[consolidation.source_index].withdrawable_epoch =
-        source_validator.exit_epoch + context.min_validator_withdrawability_delay;
+        exit_epoch + context.min_validator_withdrawability_delay;
     state.pending_consolidations.push(PendingConsolidation {
         source_index: consolidation.source_index,
         target_index: consolidation.target_index,
-- 
2.43.0


From 2f62beb2c03031d858c829e472ad37ccc98560c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 09/34] fix: charge consolidations against the consolidation
 churn limit

---
 ethereum-consensus/src/electra/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 8ad7dba..4d639c6 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -626,7 +626,7 @@ pub fn compute_consolidation_epoch_and_update_churn<
     let activation_exit_epoch = compute_activation_exit_epoch(current_epoch, context);
     let mut earliest_consolidation_epoch =
         state.earliest_consolidation_epoch.max(activation_exit_epoch);
-    let per_epoch_churn = get_activation_exit_churn_limit(state, context)?;
+    let per_epoch_churn = get_consolidation_churn_limit(state, context)?;
     let mut consolidation_balance_to_consume =
         if state.earliest_consolidation_epoch < earliest_consolidation_epoch {
             per_epoch_churn
-- 
2.43.0


From 09aaeb771b650de10418de14807b767460f75eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 10/34] fix: read each committee's bits of an electra
 attestation at its own offset

---
 ethereum-consensus/src/electra/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 4d639c6..456a9d5 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -299,13 +299,15 @@ pub fn get_attesting_indices<
 
     let mut indices = HashSet::with_capacity(MAX_VALIDATORS_PER_SLOT);
 
-    for (committee_offset, index) in committee_indices.into_iter().enumerate() {
+    let mut committee_offset = 0;
+    for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
             }
         }
+        committee_offset += committee.len();
     }
 
     Ok(indices)
-- 
2.43.0


From 410aeaa3640cc3cb981894283465042ba84e514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 11/34] fix: start the electra genesis state without a deposit
 receipt index

---
 ethereum-consensus/src/electra/genesis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/electra/genesis.rs b/ethereum-consensus/src/electra/genesis.rs
index 4a07578..d368a1c 100644
--- a/ethereum-consensus/src/electra/genesis.rs
+++ b/ethereum-consensus/src/electra/genesis.rs
@@ -2,7 +2,7 @@ use crate::{
     electra::{
         get_next_sync_committee, increase_balance, process_deposit, BeaconBlockBody,
         BeaconBlockHeader, BeaconState, Deposit, DepositData, Eth1Data, ExecutionPayloadHeader,
-        Fork, DEPOSIT_DATA_LIST_BOUND,
+        Fork, DEPOSIT_DATA_LIST_BOUND, UNSET_DEPOSIT_RECEIPTS_START_INDEX,
     },
     primitives::{Gwei, Hash32, GENESIS_EPOCH},
     ssz::prelude::*,
@@ -108,6 +108,7 @@ pub fn initialize_beacon_state_from_eth1<
         latest_block_header,
         randao_mixes,
         latest_execution_payload_header: execution_payload_header,
+        deposit_receipts_start_index: UNSET_DEPOSIT_RECEIPTS_START_INDEX,
         ..Default::default()
     };
 
-- 
2.43.0


From b315291b6753aab855c92fbc71ec299c89649335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 12/34] fix: refuse a block with an error when fewer deposits
 are recorded than processed

---
 ethereum-consensus/src/capella/block_processing.rs | 7 ++++++-
 ethereum-consensus/src/phase0/block_processing.rs  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/capella/block_processing.rs b/ethereum-consensus/src/capella/block_processing.rs
index 0165344..96da5d7 100644
--- a/ethereum-consensus/src/capella/block_processing.rs
+++ b/ethereum-consensus/src/capella/block_processing.rs
@@ -18,6 +18,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 
 pub fn process_bls_to_execution_change<
@@ -138,7 +139,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
     if body.deposits.len() != expected_deposit_count {
         return Err(invalid_operation_error(InvalidOperation::Deposit(
diff --git a/ethereum-consensus/src/phase0/block_processing.rs b/ethereum-consensus/src/phase0/block_processing.rs
index cc0c4a2..c6b481d 100644
--- a/ethereum-consensus/src/phase0/block_processing.rs
+++ b/ethereum-consensus/src/phase0/block_processing.rs
@@ -28,6 +28,7 @@ use crate::{
     signing::verify_signed_data,
     ssz::prelude::*,
     state_transition::{Context, Result},
+    Error,
 };
 use std::collections::HashSet;
 
@@ -737,7 +738,11 @@ pub fn process_operations<
 ) -> Result<()> {
     let expected_deposit_count = usize::min(
         context.max_deposits,
-        (state.eth1_data.deposit_count - state.eth1_deposit_index) as usize,
+        state
+            .eth1_data
+            .deposit_count
+            .checked_sub(state.eth1_deposit_index)
+            .ok_or(Error::Underflow)? as usize,
     );
 
     if body.deposits.len() != expected_deposit_count {
-- 
2.43.0


From 12b51710f629eb5d5cd0755551320cd19b07ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:21 +0000
Subject: [PATCH 13/34] fix: refuse a block of another fork than its slot's in
 the executor

---
 ethereum-consensus/src/fork.rs                  |  2 +-
 .../src/state_transition/executor.rs            | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/fork.rs b/ethereum-consensus/src/fork.rs
index 12571fc..f886d1e 100644
--- a/ethereum-consensus/src/fork.rs
+++ b/ethereum-consensus/src/fork.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 
 // Identifies the fork of the protocol the associated object belongs to.
-#[derive(Debug, Clone, Copy, serde::Serialize, serde::Deserialize)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
 #[serde(rename_all = "lowercase")]
 pub enum Fork {
     Phase0,
diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index d23c385..a560068 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -1,5 +1,6 @@
 use crate::{
     altair, bellatrix, capella, deneb, phase0,
+    primitives::Slot,
     state_transition::{Context, Result, Validation},
     types::{BeaconState, SignedBeaconBlock},
     Error, Fork,
@@ -171,6 +172,17 @@ impl<
         }
     }
 
+    /// Each block must be applied under the rules of the fork its slot belongs to.
+    fn check_fork(&self, slot: Slot, fork: Fork) -> Result<()> {
+        if self.context.fork_for(slot) != fork {
+            return Err(Error::InvalidForkTransition {
+                source_fork: self.state.version(),
+                destination_fork: fork,
+            })
+        }
+        Ok(())
+    }
+
     pub fn apply_phase0_block_with_validation(
         &mut self,
         signed_block: &phase0::SignedBeaconBlock<
@@ -183,6 +195,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.check_fork(signed_block.message.slot, Fork::Phase0)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 phase0::state_transition(state, signed_block, validation, &self.context)
@@ -207,6 +220,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.check_fork(signed_block.message.slot, Fork::Altair)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -252,6 +266,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.check_fork(signed_block.message.slot, Fork::Bellatrix)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -330,6 +345,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.check_fork(signed_block.message.slot, Fork::Capella)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
@@ -427,6 +443,7 @@ impl<
         >,
         validation: Validation,
     ) -> Result<()> {
+        self.check_fork(signed_block.message.slot, Fork::Deneb)?;
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-- 
2.43.0


From ad80c52e310f3b221e38919e7502d9dd11f0c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:21 +0000
Subject: [PATCH 14/34] fix: upgrade through forks that share an activation
 epoch in the executor

---
 .../src/state_transition/executor.rs          | 80 ++++++++++++++-----
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/ethereum-consensus/src/state_transition/executor.rs b/ethereum-consensus/src/state_transition/executor.rs
index a560068..ca95d3e 100644
--- a/ethereum-consensus/src/state_transition/executor.rs
+++ b/ethereum-consensus/src/state_transition/executor.rs
@@ -224,7 +224,9 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
                 if signed_block.message.slot == state.slot {
                     altair::state_transition_block_in_slot(
@@ -270,11 +272,15 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -296,7 +302,9 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
                 if signed_block.message.slot == state.slot {
                     bellatrix::state_transition_block_in_slot(
@@ -349,15 +357,21 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -375,11 +389,15 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -397,7 +415,9 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -447,19 +467,27 @@ impl<
         match &mut self.state {
             BeaconState::Phase0(state) => {
                 let fork_slot = self.context.altair_fork_epoch * self.context.slots_per_epoch;
-                phase0::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    phase0::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = altair::upgrade_to_altair(state, &self.context)?;
 
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(&state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -477,15 +505,21 @@ impl<
             }
             BeaconState::Altair(state) => {
                 let fork_slot = self.context.bellatrix_fork_epoch * self.context.slots_per_epoch;
-                altair::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    altair::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = bellatrix::upgrade_to_bellatrix(state, &self.context);
 
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(&state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -503,11 +537,15 @@ impl<
             }
             BeaconState::Bellatrix(state) => {
                 let fork_slot = self.context.capella_fork_epoch * self.context.slots_per_epoch;
-                bellatrix::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    bellatrix::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = capella::upgrade_to_capella(state, &self.context);
 
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(&mut state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(&mut state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(&state, &self.context);
 
                 if signed_block.message.slot == state.slot {
@@ -525,7 +563,9 @@ impl<
             }
             BeaconState::Capella(state) => {
                 let fork_slot = self.context.deneb_fork_epoch * self.context.slots_per_epoch;
-                capella::process_slots(state, fork_slot, &self.context)?;
+                if state.slot != fork_slot {
+                    capella::process_slots(state, fork_slot, &self.context)?;
+                }
                 let mut state = deneb::upgrade_to_deneb(state, &self.context);
 
                 if signed_block.message.slot == state.slot {
-- 
2.43.0


From 4757fc12a3be2c5a2025c0362c785dce49a2ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:51 +0000
Subject: [PATCH 15/34] fix: write the integers of light client updates and
 duty containers as strings in JSON

---
 ethereum-consensus/src/altair/light_client.rs  | 3 +++
 ethereum-consensus/src/altair/validator.rs     | 2 ++
 ethereum-consensus/src/capella/light_client.rs | 3 +++
 ethereum-consensus/src/deneb/light_client.rs   | 3 +++
 ethereum-consensus/src/phase0/validator.rs     | 2 ++
 5 files changed, 13 insertions(+)

diff --git a/ethereum-consensus/src/altair/light_client.rs b/ethereum-consensus/src/altair/light_client.rs
index 628e6b7..bdf5cb3 100644
--- a/ethereum-consensus/src/altair/light_client.rs
+++ b/ethereum-consensus/src/altair/light_client.rs
@@ -36,6 +36,7 @@ pub struct LightClientUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -45,6 +46,7 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub finalized_header: LightClientHeader,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -52,5 +54,6 @@ pub struct LightClientFinalityUpdate<const SYNC_COMMITTEE_SIZE: usize> {
 pub struct LightClientOptimisticUpdate<const SYNC_COMMITTEE_SIZE: usize> {
     pub attested_header: LightClientHeader,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/altair/validator.rs b/ethereum-consensus/src/altair/validator.rs
index 1d4776c..01d954a 100644
--- a/ethereum-consensus/src/altair/validator.rs
+++ b/ethereum-consensus/src/altair/validator.rs
@@ -40,6 +40,8 @@ pub struct SignedContributionAndProof<const SYNC_SUBCOMMITTEE_SIZE: usize> {
 
 #[derive(Debug, Default, Clone, SimpleSerialize, serde::Serialize, serde::Deserialize)]
 pub struct SyncAggregatorSelectionData {
+    #[serde(with = "crate::serde::as_str")]
     pub slot: Slot,
+    #[serde(with = "crate::serde::as_str")]
     pub subcommittee_index: u64,
 }
diff --git a/ethereum-consensus/src/capella/light_client.rs b/ethereum-consensus/src/capella/light_client.rs
index 5596c7d..78fabc2 100644
--- a/ethereum-consensus/src/capella/light_client.rs
+++ b/ethereum-consensus/src/capella/light_client.rs
@@ -43,6 +43,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -56,6 +57,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -67,5 +69,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/deneb/light_client.rs b/ethereum-consensus/src/deneb/light_client.rs
index b189a46..b598f85 100644
--- a/ethereum-consensus/src/deneb/light_client.rs
+++ b/ethereum-consensus/src/deneb/light_client.rs
@@ -41,6 +41,7 @@ pub struct LightClientUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -54,6 +55,7 @@ pub struct LightClientFinalityUpdate<
     pub finalized_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub finality_branch: Vector<Bytes32, FINALIZED_ROOT_INDEX_FLOOR_LOG_2>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
 
@@ -65,5 +67,6 @@ pub struct LightClientOptimisticUpdate<
 > {
     pub attested_header: LightClientHeader<BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>,
     pub sync_aggregate: SyncAggregate<SYNC_COMMITTEE_SIZE>,
+    #[serde(with = "crate::serde::as_str")]
     pub signature_slot: Slot,
 }
diff --git a/ethereum-consensus/src/phase0/validator.rs b/ethereum-consensus/src/phase0/validator.rs
index 616c2c7..7af018f 100644
--- a/ethereum-consensus/src/phase0/validator.rs
+++ b/ethereum-consensus/src/phase0/validator.rs
@@ -27,8 +27,10 @@ pub struct Validator {
 
 #[derive(Default, Debug, SimpleSerialize, Clone, serde::Serialize, serde::Deserialize)]
 pub struct Eth1Block {
+    #[serde(with = "crate::serde::as_str")]
     pub timestamp: u64,
     pub deposit_root: Root,
+    #[serde(with = "crate::serde::as_str")]
     pub deposit_count: u64,
 }
 
-- 
2.43.0


From 86ef16ed42882fd8d1dd824ad2b50e416356dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:51 +0000
Subject: [PATCH 16/34] fix: read sequences of integers from JSON of any source

---
 ethereum-consensus/src/serde.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ethereum-consensus/src/serde.rs b/ethereum-consensus/src/serde.rs
index 26f5e46..b15f45d 100644
--- a/ethereum-consensus/src/serde.rs
+++ b/ethereum-consensus/src/serde.rs
@@ -127,8 +127,8 @@ pub mod seq_of_str {
         {
             let mut coll = Vec::with_capacity(access.size_hint().unwrap_or(0));
 
-            while let Some(elem) = access.next_element()? {
-                let recovered_elem = T::from_str(elem).map_err(|_| {
+            while let Some(elem) = access.next_element::<String>()? {
+                let recovered_elem = T::from_str(&elem).map_err(|_| {
                     Error::custom("failure to parse element of sequence from string")
                 })?;
                 coll.push(recovered_elem);
-- 
2.43.0


From ed9ac487366cb1524f7d8e8fced45ad7242e7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 17/34] fix: answer the genesis time and clock of the Hoodi
 network

---
 ethereum-consensus/src/clock.rs                    | 8 ++++++++
 ethereum-consensus/src/state_transition/context.rs | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/ethereum-consensus/src/clock.rs b/ethereum-consensus/src/clock.rs
index 0f0ebb7..7355995 100644
--- a/ethereum-consensus/src/clock.rs
+++ b/ethereum-consensus/src/clock.rs
@@ -13,6 +13,7 @@ pub const MAINNET_GENESIS_TIME: u64 = 1606824023;
 pub const SEPOLIA_GENESIS_TIME: u64 = 1655733600;
 pub const GOERLI_GENESIS_TIME: u64 = 1616508000;
 pub const HOLESKY_GENESIS_TIME: u64 = 1695902400;
+pub const HOODI_GENESIS_TIME: u64 = 1742213400;
 
 pub fn duration_since_unix_epoch() -> Duration {
     SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default()
@@ -134,6 +135,13 @@ pub fn for_holesky() -> Clock<SystemTimeProvider> {
     from_system_time(genesis_time, seconds_per_slot, slots_per_epoch)
 }
 
+pub fn for_hoodi() -> Clock<SystemTimeProvider> {
+    let genesis_time = HOODI_GENESIS_TIME;
+    let seconds_per_slot = configs::hoodi::SECONDS_PER_SLOT;
+    let slots_per_epoch = presets::mainnet::SLOTS_PER_EPOCH;
+    from_system_time(genesis_time, seconds_per_slot, slots_per_epoch)
+}
+
 impl<T: TimeProvider + Send + Sync> Clock<T> {
     pub fn new(
         genesis_time: u64,
diff --git a/ethereum-consensus/src/state_transition/context.rs b/ethereum-consensus/src/state_transition/context.rs
index f3b2e9b..bb35756 100644
--- a/ethereum-consensus/src/state_transition/context.rs
+++ b/ethereum-consensus/src/state_transition/context.rs
@@ -475,6 +475,7 @@ impl Context {
             Network::Sepolia => Ok(crate::clock::SEPOLIA_GENESIS_TIME),
             Network::Goerli => Ok(crate::clock::GOERLI_GENESIS_TIME),
             Network::Holesky => Ok(crate::clock::HOLESKY_GENESIS_TIME),
+            Network::Hoodi => Ok(crate::clock::HOODI_GENESIS_TIME),
             name => Err(Error::UnknownGenesisTime(name.to_string())),
         }
     }
@@ -485,6 +486,7 @@ impl Context {
             Network::Sepolia => Some(clock::for_sepolia()),
             Network::Goerli => Some(clock::for_goerli()),
             Network::Holesky => Some(clock::for_holesky()),
+            Network::Hoodi => Some(clock::for_hoodi()),
             _ => None,
         }
     }
-- 
2.43.0


From 199feaa20939ca8e1bae45b0099879775c2e3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:12 +0000
Subject: [PATCH 18/34] fix: text form of a custom network reads back as that
 network

---
 ethereum-consensus/src/networks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/networks.rs b/ethereum-consensus/src/networks.rs
index 73e0fe9..0211e28 100644
--- a/ethereum-consensus/src/networks.rs
+++ b/ethereum-consensus/src/networks.rs
@@ -34,7 +34,11 @@ impl std::fmt::Display for Network {
 
 impl From<Network> for String {
     fn from(value: Network) -> Self {
-        format!("{value}")
+        match value {
+            // the path alone, so that reading the text back refers to the same directory
+            Network::Custom(config_dir) => config_dir,
+            network => format!("{network}"),
+        }
     }
 }
 
-- 
2.43.0


From b91e1496892f4cf49754d065787ca2c1aeb63f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 19/34] fix: keep the end of a payload that exceeds whole blobs
 by less than a field element

---
 ethereum-consensus/src/bin/ec/blobs/encode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ethereum-consensus/src/bin/ec/blobs/encode.rs b/ethereum-consensus/src/bin/ec/blobs/encode.rs
index b56ca21..1182294 100644
--- a/ethereum-consensus/src/bin/ec/blobs/encode.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/encode.rs
@@ -47,6 +47,12 @@ pub fn pack_into_blobs(buffer: &[u8]) -> Result<Vec<Blob>, Error> {
 
     let remainder = chunks.remainder();
     if !remainder.is_empty() {
+        // the full field elements may exactly fill a blob, the remainder then begins the next one
+        if blob_buffer.len() == BYTES_PER_BLOB {
+            let blob = Blob::try_from(blob_buffer.as_ref()).expect("is the right size");
+            blobs.push(blob);
+            blob_buffer.clear();
+        }
         let mut field_element = field_element_from_bits(remainder)?;
         blob_buffer.append(&mut field_element);
     }
-- 
2.43.0


From 71a5e360af21e34361cb094e6f433d80f041dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 20/34] fix: compare a framed size with the payload instead of
 the whole stream

---
 ethereum-consensus/src/bin/ec/blobs/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/blobs/framing.rs b/ethereum-consensus/src/bin/ec/blobs/framing.rs
index a5813ad..d45717b 100644
--- a/ethereum-consensus/src/bin/ec/blobs/framing.rs
+++ b/ethereum-consensus/src/bin/ec/blobs/framing.rs
@@ -37,7 +37,7 @@ pub fn payload_from_sized(stream: &[u8]) -> Result<&[u8], Error> {
         return Err(Error::UnsupportedSizedFramingVersion)
     }
     let size = u32::from_be_bytes(header[1..5].try_into().expect("correct size bytes")) as usize;
-    if size >= stream.len() {
+    if size > payload.len() {
         return Err(Error::InvalidPayloadSize)
     }
 
-- 
2.43.0


From bebe9d2e068c5c8db2bd613a32b8ff338e3f94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 21/34] fix: count AES blocks of keystores over the whole IV as
 EIP-2335 does

---
 ethereum-consensus/src/bin/ec/validator/keystores.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ethereum-consensus/src/bin/ec/validator/keystores.rs b/ethereum-consensus/src/bin/ec/validator/keystores.rs
index 20a7f95..20b9f9b 100644
--- a/ethereum-consensus/src/bin/ec/validator/keystores.rs
+++ b/ethereum-consensus/src/bin/ec/validator/keystores.rs
@@ -45,7 +45,7 @@ const KDF_FN: &str = "scrypt";
 const SCRYPT_DKLEN: usize = 32;
 
 const CIPHER_FN: &str = "aes-128-ctr";
-type CtrCipher = ctr::Ctr64BE<aes::Aes128>;
+type CtrCipher = ctr::Ctr128BE<aes::Aes128>;
 const AES_SIZE: usize = 16;
 
 const CHECKSUM_FN: &str = "sha256";
-- 
2.43.0


From 4bd4ca83179b53fda6b4309d972448bc3dceb190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:43 +0000
Subject: [PATCH 22/34] fix: let a fork's constant override the constant of an
 earlier fork in generated specs

---
 spec-gen/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index f31fe4e..ffca20d 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -625,6 +625,7 @@ fn parse_fork_diff_with_symbol_index(fork: &Fork) -> (ForkDiff, HashMap<String,
                 Item::Const(item) => {
                     let item = Constant::new(item, *fork);
                     if item.is_pub() {
+                        index.insert(item.item.ident.to_string(), module_name.to_string());
                         module.constants.push(item);
                     }
                 }
-- 
2.43.0


From 2a9b3086c38bd5d5c27e2f976464fb876bfd7448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 23/34] fix: keep the copy of a function made for an earlier
 fork when its types change no more

---
 spec-gen/src/generator.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index ffca20d..d0c8ccf 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -449,7 +449,6 @@ impl Spec {
                             target_module.containers.iter().find(|&c| c.name == name)
                         {
                             // if we find a newer definition, edit the types of this function
-                            // if not, just import from the earlier fork
                             if container.fork == self.fork {
                                 let arguments = generics_to_arguments(&container.item.generics);
                                 let mut editor = ArgumentsEditor::new(&container.name, &arguments);
@@ -457,16 +456,14 @@ impl Spec {
 
                                 all_arguments.push(arguments);
                                 f.fork = self.fork;
-                            } else {
-                                f.can_import = true;
                             }
                         }
                     }
                 }
 
-                // if item's `fork` did not change, we can just import it
+                // if item's `fork` did not change, we can just import it,
+                // or keep the copy that was made for an earlier fork
                 if f.fork != self.fork {
-                    assert!(f.can_import);
                     module.fns.push(f);
                     index.insert(fn_name, module_name.to_string());
                     continue
-- 
2.43.0


From 967dccbb0a7bb3d6abf1ead4abe2ef4d46da354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 24/34] fix: generate functions with several lifetimes or type
 parameters

---
 spec-gen/src/visitors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index 819beca..c0411d1 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -115,14 +115,14 @@ pub fn collate_generics_from(
 
     if !lifetimes.is_empty() {
         let lifetimes: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = parse_quote! {
-            #(#lifetimes)*,
+            #(#lifetimes),*
         };
         generics.params.extend(lifetimes);
     }
 
     if !type_params.is_empty() {
         let type_params: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = parse_quote! {
-            #(#type_params)*,
+            #(#type_params),*
         };
         generics.params.extend(type_params);
     }
-- 
2.43.0


From 27c1088b01a1c7ae0e8f9c0ea723a508c16dfdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 25/34] fix: do not declare lifetimes a function only mentions,
 such as 'static

---
 spec-gen/src/visitors.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index c0411d1..1eff945 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -8,24 +8,9 @@ pub fn as_syn_ident(s: String) -> Ident {
     syn::parse_str(&s).unwrap()
 }
 
-#[derive(Default)]
-struct LifetimeTypeVisitor {
-    items: Vec<syn::Lifetime>,
-}
-
-impl<'ast> Visit<'ast> for LifetimeTypeVisitor {
-    fn visit_lifetime(&mut self, i: &'ast syn::Lifetime) {
-        if !self.items.contains(i) {
-            self.items.push(i.clone())
-        }
-        visit::visit_lifetime(self, i);
-    }
-}
-
+// returns the lifetimes `f` declares
 pub fn collect_lifetimes(f: &ItemFn) -> Vec<syn::Lifetime> {
-    let mut visitor = LifetimeTypeVisitor::default();
-    visitor.visit_item_fn(f);
-    visitor.items
+    f.sig.generics.lifetimes().map(|def| def.lifetime.clone()).collect()
 }
 
 #[derive(Default)]
-- 
2.43.0


From feb1c81b99df1b4268891a8d262266df3f4f5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 26/34] fix: specialise functions that take types of a fork
 within tuples and arrays

---
 spec-gen/src/visitors.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index 1eff945..d1a43d6 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -1,4 +1,3 @@
-use quote::quote;
 use syn::{
     parse_quote, visit, visit::Visit, visit_mut, visit_mut::VisitMut,
     AngleBracketedGenericArguments, Generics, Ident, ItemFn, Type,
@@ -177,22 +176,9 @@ impl<'ast> Visit<'ast> for TypeNameVisitor {
     }
 
     fn visit_pat_type(&mut self, i: &'ast syn::PatType) {
-        match &*i.ty {
-            Type::Reference(node) => {
-                self.in_context = true;
-                visit::visit_type_reference(self, node);
-                self.in_context = false;
-            }
-            Type::Path(node) => {
-                self.in_context = true;
-                visit::visit_type_path(self, node);
-                self.in_context = false;
-            }
-            ty => {
-                let ty_str = quote!(#ty).to_string();
-                println!("skipping type during visit: `{ty_str}`");
-            }
-        }
+        self.in_context = true;
+        self.visit_type(&i.ty);
+        self.in_context = false;
         visit::visit_pat_type(self, i);
     }
 }
-- 
2.43.0


From 7a4cb0a4e28e7fc1a54b9eb4a084f7a3858a923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 27/34] fix: keep the const parameters of types that the fork
 does not define

---
 spec-gen/src/generator.rs |  8 ++++++--
 spec-gen/src/visitors.rs  | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/spec-gen/src/generator.rs b/spec-gen/src/generator.rs
index d0c8ccf..d720595 100644
--- a/spec-gen/src/generator.rs
+++ b/spec-gen/src/generator.rs
@@ -1,6 +1,6 @@
 use crate::visitors::{
     as_syn_ident, collate_generics_from, collect_lifetimes, collect_type_params,
-    generics_to_arguments, ArgumentsEditor, TypeNameVisitor,
+    collect_used_const_params, generics_to_arguments, ArgumentsEditor, TypeNameVisitor,
 };
 use std::{
     collections::{BTreeMap, HashMap},
@@ -488,7 +488,11 @@ impl Spec {
                         f.fork = self.fork;
                     }
                 }
-                let generics = collate_generics_from(&all_arguments, &lifetimes, &type_params);
+                // types this fork does not define keep their params
+                let const_params =
+                    collect_used_const_params(&fragment.sig.generics, &fragment, &type_params);
+                let generics =
+                    collate_generics_from(&all_arguments, &const_params, &lifetimes, &type_params);
                 fragment.sig.generics = generics;
 
                 f.item = fragment;
diff --git a/spec-gen/src/visitors.rs b/spec-gen/src/visitors.rs
index d1a43d6..7b5ce6e 100644
--- a/spec-gen/src/visitors.rs
+++ b/spec-gen/src/visitors.rs
@@ -12,6 +12,35 @@ pub fn collect_lifetimes(f: &ItemFn) -> Vec<syn::Lifetime> {
     f.sig.generics.lifetimes().map(|def| def.lifetime.clone()).collect()
 }
 
+#[derive(Default)]
+struct IdentVisitor {
+    idents: Vec<Ident>,
+}
+
+impl<'ast> Visit<'ast> for IdentVisitor {
+    fn visit_ident(&mut self, i: &'ast Ident) {
+        self.idents.push(i.clone());
+    }
+}
+
+// returns the const params of `generics` that `f` or `type_params` use
+pub fn collect_used_const_params(
+    generics: &Generics,
+    f: &ItemFn,
+    type_params: &[syn::TypeParam],
+) -> Vec<syn::ConstParam> {
+    let mut visitor = IdentVisitor::default();
+    for input in &f.sig.inputs {
+        visitor.visit_fn_arg(input);
+    }
+    visitor.visit_return_type(&f.sig.output);
+    visitor.visit_block(&f.block);
+    for type_param in type_params {
+        visitor.visit_type_param(type_param);
+    }
+    generics.const_params().filter(|param| visitor.idents.contains(&param.ident)).cloned().collect()
+}
+
 #[derive(Default)]
 struct TypeParamVisitor {
     in_context: bool,
@@ -80,6 +109,7 @@ impl<'ast> Visit<'ast> for ToGenericsVisitor {
 
 pub fn collate_generics_from(
     arguments: &[AngleBracketedGenericArguments],
+    const_params: &[syn::ConstParam],
     lifetimes: &[syn::Lifetime],
     type_params: &[syn::TypeParam],
 ) -> Generics {
@@ -97,6 +127,12 @@ pub fn collate_generics_from(
         >
     };
 
+    for param in const_params {
+        if generics.const_params().all(|known| known.ident != param.ident) {
+            generics.params.push(param.clone().into());
+        }
+    }
+
     if !lifetimes.is_empty() {
         let lifetimes: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = parse_quote! {
             #(#lifetimes),*
-- 
2.43.0


From c3586b417263859e0da3f7560956260465aeaecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 28/34] fix: read the response of the randao endpoint, whose
 data is an object

---
 beacon-api-client/src/api_client.rs | 10 +++++-----
 beacon-api-client/src/types.rs      |  9 +++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index c0ed9d5..7ee1bcf 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -5,9 +5,9 @@ use crate::{
         CommitteeFilter, CommitteeSummary, ConnectionOrientation, CoordinateWithMetadata,
         DepositContract, DepositSnapshot, FinalityCheckpoints, GenesisDetails, HealthStatus,
         NetworkIdentity, PeerDescription, PeerState, PeerSummary, ProposerDuty, PublicKeyOrIndex,
-        RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor, SyncCommitteeDuty,
-        SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness, ValidatorStatus,
-        ValidatorSummary, Value, VersionData, VersionedValue,
+        RandaoData, RootData, StateId, SubmitSignedBeaconBlock, SyncCommitteeDescriptor,
+        SyncCommitteeDuty, SyncCommitteeSummary, SyncStatus, Topic, ValidatorLiveness,
+        ValidatorStatus, ValidatorSummary, Value, VersionData, VersionedValue,
     },
     ApiError, Error,
 };
@@ -269,9 +269,9 @@ impl<C: ClientTypes> Client<C> {
         }
         let response = request.send().await?;
 
-        let result: ApiResult<Value<Bytes32>> = response.json().await?;
+        let result: ApiResult<Value<RandaoData>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.data.randao),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
diff --git a/beacon-api-client/src/types.rs b/beacon-api-client/src/types.rs
index ee59120..9366989 100644
--- a/beacon-api-client/src/types.rs
+++ b/beacon-api-client/src/types.rs
@@ -6,8 +6,8 @@ use ethereum_consensus::{
     networking::{Enr, Multiaddr, PeerId},
     phase0::{Checkpoint, SignedBeaconBlockHeader, Validator},
     primitives::{
-        BlsPublicKey, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei, Hash32,
-        Root, Slot, ValidatorIndex, Version,
+        BlsPublicKey, Bytes32, ChainId, CommitteeIndex, Coordinate, Epoch, ExecutionAddress, Gwei,
+        Hash32, Root, Slot, ValidatorIndex, Version,
     },
     serde::try_bytes_from_hex_str,
     Fork,
@@ -110,6 +110,11 @@ pub struct RootData {
     pub root: Root,
 }
 
+#[derive(Serialize, Deserialize)]
+pub struct RandaoData {
+    pub randao: Bytes32,
+}
+
 #[derive(Serialize, Deserialize, Clone, Debug)]
 pub enum BlockId {
     Head,
-- 
2.43.0


From 5482b23040fde5805fe2a29617d80e613c58733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 29/34] fix: send the indices of the requested blob sidecars

---
 beacon-api-client/src/api_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 7ee1bcf..cd3c899 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -401,7 +401,7 @@ impl<C: ClientTypes> Client<C> {
         let target = self.endpoint.join(&path)?;
         let mut request = self.http.get(target);
         if !indices.is_empty() {
-            request = request.query(&[("indices", indices)]);
+            request = request.query(&[("indices", indices.iter().join(","))]);
         }
         let response = request.send().await?;
         let result: ApiResult<Value<_>> = response.json().await?;
-- 
2.43.0


From 04c5dbf6e4f67aa0dd9d5d71e7648f9e71fe644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 30/34] fix: keep the path of the endpoint in get_events and
 get_peer

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index cd3c899..fc4d059 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -609,7 +609,7 @@ impl<C: ClientTypes> Client<C> {
     /* events namespace */
     pub async fn get_events<T: Topic>(&self) -> Result<EventStream<T::Data>, Error> {
         let name = T::NAME;
-        let path = format!("/eth/v1/events?topics={name}");
+        let path = format!("eth/v1/events?topics={name}");
         let target = self.endpoint.join(&path)?.to_string();
 
         let client = EventClient::default();
@@ -646,7 +646,7 @@ impl<C: ClientTypes> Client<C> {
 
     pub async fn get_peer(&self, peer_id: PeerId) -> Result<PeerDescription, Error> {
         let result: Value<PeerDescription> =
-            self.get(&format!("/eth/v1/node/peers/{peer_id}")).await?;
+            self.get(&format!("eth/v1/node/peers/{peer_id}")).await?;
         Ok(result.data)
     }
 
-- 
2.43.0


From 51c79716db87005bcd8a0557262d20e1b8c0d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 31/34] fix: read the list of headers the headers endpoint
 responds with

---
 beacon-api-client/src/api_client.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index fc4d059..5ce0fc3 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -55,6 +55,13 @@ async fn api_error_or_value<T: serde::de::DeserializeOwned>(
     }
 }
 
+fn first_header(headers: Vec<BeaconHeaderSummary>) -> Result<BeaconHeaderSummary, Error> {
+    headers
+        .into_iter()
+        .next()
+        .ok_or_else(|| Error::MissingExpectedData("no matching block header".to_string()))
+}
+
 pub trait ClientTypes: Clone {
     type SignedContributionAndProof: serde::Serialize;
     type SyncCommitteeContribution: serde::Serialize + serde::de::DeserializeOwned;
@@ -277,8 +284,8 @@ impl<C: ClientTypes> Client<C> {
     }
 
     pub async fn get_beacon_header_at_head(&self) -> Result<BeaconHeaderSummary, Error> {
-        let result: Value<BeaconHeaderSummary> = self.get("eth/v1/beacon/headers").await?;
-        Ok(result.data)
+        let result: Value<Vec<BeaconHeaderSummary>> = self.get("eth/v1/beacon/headers").await?;
+        first_header(result.data)
     }
 
     pub async fn get_beacon_header_for_slot(
@@ -289,9 +296,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("slot", slot)]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => first_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
@@ -304,9 +311,9 @@ impl<C: ClientTypes> Client<C> {
         let mut request = self.http.get(target);
         request = request.query(&[("parent_root", format!("{parent_root:?}"))]);
         let response = request.send().await?;
-        let result: ApiResult<Value<BeaconHeaderSummary>> = response.json().await?;
+        let result: ApiResult<Value<Vec<BeaconHeaderSummary>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => first_header(result.data),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 791a71b3e7f51b19952102fe0c3f4c98934b361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 32/34] fix: read the bare list the light client updates
 endpoint responds with

---
 beacon-api-client/src/api_client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index 5ce0fc3..a4e4654 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -451,9 +451,9 @@ impl<C: ClientTypes> Client<C> {
         request = request.query(&[("start_period", start), ("count", count)]);
 
         let response = request.send().await?;
-        let result: ApiResult<Value<_>> = response.json().await?;
+        let result: ApiResult<Vec<VersionedValue<_>>> = response.json().await?;
         match result {
-            ApiResult::Ok(result) => Ok(result.data),
+            ApiResult::Ok(result) => Ok(result.into_iter().map(|update| update.data).collect()),
             ApiResult::Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From 356a8780cb8bb221a0c02e3bc9764af7c4d44266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 33/34] fix: send validator indices as strings in post_liveness

---
 beacon-api-client/src/api_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beacon-api-client/src/api_client.rs b/beacon-api-client/src/api_client.rs
index a4e4654..53929b7 100644
--- a/beacon-api-client/src/api_client.rs
+++ b/beacon-api-client/src/api_client.rs
@@ -873,8 +873,9 @@ impl<C: ClientTypes> Client<C> {
         epoch: Epoch,
         indices: &[ValidatorIndex],
     ) -> Result<Vec<ValidatorLiveness>, Error> {
+        let indices = indices.iter().map(|index| index.to_string()).collect::<Vec<_>>();
         let response =
-            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), indices).await?;
+            self.http_post(&format!("eth/v1/validator/liveness/{epoch}"), &indices).await?;
         let result: ApiResult<Value<_>> = response.json().await?;
         match result {
             ApiResult::Ok(result) => Ok(result.data),
-- 
2.43.0


From 45b0e00ee2228e2bb84588c46e9c6c080236dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 34/34] fix: electra get_attesting_indices refuses too few
 aggregation bits instead of panicking

---
 ethereum-consensus/src/electra/helpers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ethereum-consensus/src/electra/helpers.rs b/ethereum-consensus/src/electra/helpers.rs
index 456a9d5..d7e37a7 100644
--- a/ethereum-consensus/src/electra/helpers.rs
+++ b/ethereum-consensus/src/electra/helpers.rs
@@ -7,6 +7,7 @@ use crate::{
         get_total_active_balance, increase_balance,
         operations::{Attestation, IndexedAttestation},
     },
+    error::{invalid_operation_error, InvalidAttestation, InvalidOperation},
     phase0::{compute_activation_exit_epoch, Validator},
     primitives::{
         Bytes32, CommitteeIndex, Epoch, Gwei, ValidatorIndex, COMPOUNDING_WITHDRAWAL_PREFIX,
@@ -302,6 +303,14 @@ pub fn get_attesting_indices<
     let mut committee_offset = 0;
     for index in committee_indices {
         let committee = get_beacon_committee(state, attestation.data.slot, index, context)?;
+        if attestation.aggregation_bits.len() < committee_offset + committee.len() {
+            return Err(invalid_operation_error(InvalidOperation::Attestation(
+                InvalidAttestation::Bitfield {
+                    expected_length: committee_offset + committee.len(),
+                    length: attestation.aggregation_bits.len(),
+                },
+            )))
+        }
         for (i, validator_index) in committee.iter().enumerate() {
             if attestation.aggregation_bits[committee_offset + i] {
                 indices.insert(*validator_index);
-- 
2.43.0

