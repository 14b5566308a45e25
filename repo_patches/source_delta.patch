From b6efbf2689b50234af572a978b6d19f9358aafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:11 +0000
Subject: [PATCH 01/16] fix: avoid overflow when checking block gas, size and
 DA limits

A transaction with a gas limit close to u64::MAX made the block limiter's
pre-execution sums overflow: a panic with overflow checks, and a wrapped,
wrongly admitted transaction without them. Saturate instead.
---
 crates/mega-evm/src/block/limit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mega-evm/src/block/limit.rs b/crates/mega-evm/src/block/limit.rs
index 4a5ef65..768169e 100644
--- a/crates/mega-evm/src/block/limit.rs
+++ b/crates/mega-evm/src/block/limit.rs
@@ -794,7 +794,7 @@ impl BlockLimiter {
         }
 
         // Check block gas limit
-        if self.block_gas_used + gas_limit > self.limits.block_gas_limit {
+        if self.block_gas_used.saturating_add(gas_limit) > self.limits.block_gas_limit {
             return Err(BlockExecutionError::Validation(
                 BlockValidationError::TransactionGasLimitMoreThanAvailableBlockGas {
                     transaction_gas_limit: gas_limit,
@@ -815,7 +815,8 @@ impl BlockLimiter {
         }
 
         // Check block transaction size limit
-        if tx_size + self.block_tx_size_used > self.limits.block_txs_encode_size_limit {
+        if self.block_tx_size_used.saturating_add(tx_size) > self.limits.block_txs_encode_size_limit
+        {
             return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                 hash: tx_hash,
                 error: Box::new(MegaBlockLimitExceededError::TransactionEncodeSizeLimit {
@@ -840,7 +841,7 @@ impl BlockLimiter {
             }
 
             // Check block data availability size limit
-            if da_size + self.block_da_size_used > self.limits.block_da_size_limit {
+            if self.block_da_size_used.saturating_add(da_size) > self.limits.block_da_size_limit {
                 return Err(BlockExecutionError::Validation(BlockValidationError::InvalidTx {
                     hash: tx_hash,
                     error: Box::new(MegaBlockLimitExceededError::DataAvailabilitySizeLimit {
-- 
2.43.0


From e4d0a13f2a763063b26039fcc88d12c77817dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:39 +0000
Subject: [PATCH 02/16] fix: report storage and SALT failures met by
 instruction wrappers as errors

A database failure while inspecting an account or slot, or a failure to read a
bucket capacity, either panicked (call frames, CALL/CREATE/SSTORE wrappers), or
was silently replaced by zero values (SSTORE). Propagate it through the context
error, so that executing the transaction returns the error.
---
 crates/mega-evm/src/evm/execution.rs      |  2 +-
 crates/mega-evm/src/evm/instructions.rs   | 84 ++++++++++++++---------
 crates/mega-evm/src/limit/mod.rs          |  9 +--
 crates/mega-evm/src/limit/state_growth.rs | 10 +--
 4 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 846f339..ea0e82f 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -667,7 +667,7 @@ where
         if is_mini_rex_enabled &&
             additional_limit
                 .borrow_mut()
-                .before_frame_init(&frame_init, self.ctx().journal_mut())
+                .before_frame_init(&frame_init, self.ctx().journal_mut())?
                 .exceeded_limit()
         {
             // if the limit is exceeded, create an error frame result and return it directly
diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 805c1a5..d4ba736 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1,4 +1,7 @@
+#[cfg(not(feature = "std"))]
+use alloc as std;
 use core::cmp::min;
+use std::format;
 
 use crate::{
     constants::{self},
@@ -8,6 +11,7 @@ use alloy_evm::Database;
 use alloy_primitives::{keccak256, Address, Bytes, U256};
 use revm::{
     context::{ContextTr, JournalTr},
+    context_interface::context::ContextError,
     handler::instructions::{EthInstructions, InstructionProvider},
     interpreter::{
         as_usize_or_fail, gas, gas_or_fail,
@@ -221,6 +225,21 @@ macro_rules! compute_gas {
     };
 }
 
+/// Macro to report a fatal (non-EVM) error through the context, so that the transaction execution
+/// returns it as an error, and halt the interpreter.
+macro_rules! fatal_error {
+    ($context:expr, $error:expr) => {
+        *$context.host.error() = Err($error);
+        $context.interpreter.halt(InstructionResult::FatalExternalError);
+        return;
+    };
+}
+
+/// The error reported when the storage gas cost of an address cannot be determined.
+fn storage_gas_error<DBError>(address: Address) -> ContextError<DBError> {
+    ContextError::Custom(format!("Failed to get storage gas for address: {address}"))
+}
+
 /// Macro to run the inner instruction and abort if the instruction result is an error.
 macro_rules! run_inner_instruction_or_abort {
     ($inner_fn:path, $context:expr) => {
@@ -693,10 +712,13 @@ pub mod additional_limit_ext {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
         };
-        let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) =
+            match context.host.journal_mut().inspect_storage(target_address, index) {
+                Ok(slot) => (slot.original_value(), slot.present_value()),
+                Err(error) => {
+                    fatal_error!(context, ContextError::Db(error));
+                }
+            };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -790,11 +812,12 @@ pub mod storage_gas_ext {
                     return;
                 };
                 let to = to.into_address();
-                let Ok(to_account) = context.host.journal_mut().inspect_account_delegated(to) else {
-                    context.interpreter.halt(InstructionResult::FatalExternalError);
-                    return;
+                let is_empty = match context.host.journal_mut().inspect_account_delegated(to) {
+                    Ok(to_account) => to_account.state_clear_aware_is_empty(spec),
+                    Err(error) => {
+                        fatal_error!(context, ContextError::Db(error));
+                    }
                 };
-                let is_empty = to_account.state_clear_aware_is_empty(spec);
                 let has_transfer = if $has_transfer_logic {
                     let Some(value) =context.interpreter.stack.inspect::<2>() else {
                         context.interpreter.halt(InstructionResult::StackUnderflow);
@@ -807,8 +830,7 @@ pub mod storage_gas_ext {
                 // Charge additional storage gas cost for creating a new account
                 if is_empty && has_transfer {
                     let Ok(new_account_storage_gas) = context.host.new_account_storage_gas(to) else {
-                        context.interpreter.halt(InstructionResult::FatalExternalError);
-                        return;
+                        fatal_error!(context, storage_gas_error(to));
                     };
                     gas!(context.interpreter, new_account_storage_gas);
                 }
@@ -855,9 +877,11 @@ pub mod storage_gas_ext {
         let creator_address = context.interpreter.input.target_address();
         // Load the creator account from the journal, this must not be cold loaded since the creator
         // must have been warmed when the current frame begins.
-        let Ok(creator) = context.host.journal_mut().load_account(creator_address) else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+        let creator_nonce = match context.host.journal_mut().load_account(creator_address) {
+            Ok(creator) => creator.data.info.nonce,
+            Err(error) => {
+                fatal_error!(context, ContextError::Db(error));
+            }
         };
 
         // Calculate the created address
@@ -884,7 +908,7 @@ pub mod storage_gas_ext {
 
             creator_address.create2(salt.to_be_bytes(), initcode_hash)
         } else {
-            creator_address.create(creator.data.info.nonce)
+            creator_address.create(creator_nonce)
         };
 
         // Charge storage gas cost for creating a new contract
@@ -896,8 +920,7 @@ pub mod storage_gas_ext {
             context.host.new_account_storage_gas(created_address)
         };
         let Ok(create_contract_storage_gas) = create_contract_storage_gas else {
-            context.interpreter.halt(InstructionResult::FatalExternalError);
-            return;
+            fatal_error!(context, storage_gas_error(created_address));
         };
         gas!(context.interpreter, create_contract_storage_gas);
 
@@ -994,10 +1017,13 @@ pub mod storage_gas_ext {
             return;
         };
         // The storage slot values
-        let storage_slot = context.host.journal_mut().inspect_storage(target_address, index);
-        let (original_value, present_value) = storage_slot
-            .map(|slot| (slot.original_value(), slot.present_value()))
-            .unwrap_or_default();
+        let (original_value, present_value) =
+            match context.host.journal_mut().inspect_storage(target_address, index) {
+                Ok(slot) => (slot.original_value(), slot.present_value()),
+                Err(error) => {
+                    fatal_error!(context, ContextError::Db(error));
+                }
+            };
         let Some(new_value) = context.interpreter.stack.inspect::<1>() else {
             context.interpreter.halt(InstructionResult::StackUnderflow);
             return;
@@ -1008,8 +1034,7 @@ pub mod storage_gas_ext {
             let Ok(sstore_set_storage_gas) =
                 context.host.sstore_set_storage_gas(target_address, index)
             else {
-                context.interpreter.halt(InstructionResult::FatalExternalError);
-                return;
+                fatal_error!(context, storage_gas_error(target_address));
             };
             gas!(context.interpreter, sstore_set_storage_gas);
         }
@@ -1249,32 +1274,27 @@ impl StackInspectTr for Stack {
 /// loaded from the database and cached in the journal. However, since we explicitly mark the
 /// account or storage slot as cold, this pre-loading before executing the original instruction will
 /// make no difference on gas cost.
-pub trait JournalInspectTr {
-    /// The database error type.
-    type DBError;
-
+pub trait JournalInspectTr: JournalTr {
     /// Inspect the account at the given address without marking it as warm. If the account is
     /// EIP-7702 type, it should inspect the delegated account.
     fn inspect_account_delegated(
         &mut self,
         address: Address,
-    ) -> Result<&mut Account, Self::DBError>;
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error>;
 
     /// Inspect the storage at the given address and key without marking it as warm.
     fn inspect_storage(
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError>;
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error>;
 }
 
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
-    type DBError = <DB as revm::Database>::Error;
-
     fn inspect_account_delegated(
         &mut self,
         address: Address,
-    ) -> Result<&mut Account, Self::DBError> {
+    ) -> Result<&mut Account, <Self::Database as revm::Database>::Error> {
         let transaction_id = self.transaction_id;
         let account = match self.inner.state.entry(address) {
             Entry::Occupied(entry) => {
@@ -1313,7 +1333,7 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         &mut self,
         address: Address,
         key: StorageKey,
-    ) -> Result<&EvmStorageSlot, Self::DBError> {
+    ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error> {
         let transaction_id = self.transaction_id;
         let account = self.inspect_account_delegated(address)?;
         if account.storage.contains_key(&key) {
diff --git a/crates/mega-evm/src/limit/mod.rs b/crates/mega-evm/src/limit/mod.rs
index 763e42a..f443af1 100644
--- a/crates/mega-evm/src/limit/mod.rs
+++ b/crates/mega-evm/src/limit/mod.rs
@@ -9,6 +9,7 @@ use revm::{
         interpreter::EthInterpreter, interpreter_action::FrameInit, CallOutcome, CreateOutcome,
         FrameInput, Gas, InstructionResult, InterpreterResult, SStoreResult,
     },
+    Database,
 };
 
 use crate::{EvmTxRuntimeLimits, JournalInspectTr, MegaHaltReason, MegaSpecId, MegaTransaction};
@@ -415,11 +416,11 @@ impl AdditionalLimit {
     }
 
     /// Hook called before a new execution frame is initialized.
-    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn before_frame_init<JOURNAL: JournalInspectTr>(
         &mut self,
         frame_init: &FrameInit,
         journal: &mut JOURNAL,
-    ) -> AdditionalLimitResult {
+    ) -> Result<AdditionalLimitResult, <JOURNAL::Database as Database>::Error> {
         match &frame_init.frame_input {
             FrameInput::Empty => unreachable!(),
             FrameInput::Call(call_inputs) => {
@@ -433,7 +434,7 @@ impl AdditionalLimit {
                     journal,
                     call_inputs.target_address,
                     has_transfer,
-                );
+                )?;
             }
             FrameInput::Create(_) => {
                 // new frame in data size tracker
@@ -445,7 +446,7 @@ impl AdditionalLimit {
             }
         }
 
-        self.check_limit()
+        Ok(self.check_limit())
     }
 
     /// Hook called when a new execution frame is successfully initialized in `frame_init` and needs
diff --git a/crates/mega-evm/src/limit/state_growth.rs b/crates/mega-evm/src/limit/state_growth.rs
index e3f2967..16eb891 100644
--- a/crates/mega-evm/src/limit/state_growth.rs
+++ b/crates/mega-evm/src/limit/state_growth.rs
@@ -77,7 +77,7 @@ use alloc as std;
 use std::vec::Vec;
 
 use alloy_primitives::{Address, U256};
-use revm::{interpreter::InstructionResult, primitives::hardfork::SpecId};
+use revm::{interpreter::InstructionResult, primitives::hardfork::SpecId, Database};
 
 use crate::JournalInspectTr;
 
@@ -225,22 +225,22 @@ impl StateGrowthTracker {
     ///
     /// This implements EIP-161's account clearing rules. Calls without value transfer
     /// to empty accounts do not create an account and thus don't count toward state growth.
-    pub(crate) fn record_call<JOURNAL: JournalInspectTr<DBError: core::fmt::Debug>>(
+    pub(crate) fn record_call<JOURNAL: JournalInspectTr>(
         &mut self,
         journal: &mut JOURNAL,
         address: Address,
         has_transfer: bool,
-    ) {
+    ) -> Result<(), <JOURNAL::Database as Database>::Error> {
         self.new_frame();
 
-        let to_account =
-            journal.inspect_account_delegated(address).expect("failed to inspect account");
+        let to_account = journal.inspect_account_delegated(address)?;
         let is_empty = to_account.state_clear_aware_is_empty(SpecId::PRAGUE);
 
         if is_empty && has_transfer {
             self.total_growth += 1;
             self.update_current_frame_discardable_size(1);
         }
+        Ok(())
     }
 
     /// Records the new account creation.
-- 
2.43.0


From 1141dc73ae28ec27b74bdb541e95d66baab1c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:16 +0000
Subject: [PATCH 03/16] fix: do not let a failed transaction leak into the next
 one

When a transaction fails with an error, the accounts it loaded stayed in the
journal and were used, stale, by the next transaction even if the database
changed in between, and an error recorded in the context but masked by a later
one was reported for the next transaction.
---
 crates/mega-evm/src/evm/execution.rs  | 3 +++
 crates/mega-evm/src/evm/interfaces.rs | 8 +++++++-
 crates/mega-evm/src/evm/mod.rs        | 8 ++------
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index ea0e82f..b89044f 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -489,6 +489,9 @@ where
         evm: &mut Self::Evm,
         error: Self::Error,
     ) -> Result<ExecutionResult<Self::HaltReason>, Self::Error> {
+        // Drop an error that was recorded in the context but not consumed because the execution
+        // failed on another error first. It must not leak into the next transaction.
+        *evm.ctx().error() = Ok(());
         let result = self.op.catch_error(evm, error)?;
         Ok(result.map_haltreason(MegaHaltReason::Base))
     }
diff --git a/crates/mega-evm/src/evm/interfaces.rs b/crates/mega-evm/src/evm/interfaces.rs
index 411fb3e..163752c 100644
--- a/crates/mega-evm/src/evm/interfaces.rs
+++ b/crates/mega-evm/src/evm/interfaces.rs
@@ -46,11 +46,17 @@ where
         &mut self,
         tx: Self::Tx,
     ) -> Result<ResultAndState<Self::HaltReason>, Self::Error> {
-        if self.inspect {
+        let result = if self.inspect {
             InspectEvm::inspect_tx(self, tx)
         } else {
             revm::ExecuteEvm::transact(self, tx)
+        };
+        if result.is_err() {
+            // A failed transaction leaves the accounts it has loaded in the journal. Drop them,
+            // since the database may change before the next transaction is executed.
+            let _ = revm::ExecuteEvm::finalize(self);
         }
+        result
     }
 
     /// Transact a system call.
diff --git a/crates/mega-evm/src/evm/mod.rs b/crates/mega-evm/src/evm/mod.rs
index f623baf..e60dd3a 100644
--- a/crates/mega-evm/src/evm/mod.rs
+++ b/crates/mega-evm/src/evm/mod.rs
@@ -64,7 +64,7 @@ use revm::{
     inspector::NoOpInspector,
     interpreter::interpreter::EthInterpreter,
     primitives::HashMap,
-    ExecuteEvm, InspectEvm, Inspector, Journal,
+    InspectEvm, Inspector, Journal,
 };
 
 use crate::{BucketId, ExternalEnvTypes, LimitUsage, MegaTransaction};
@@ -319,11 +319,7 @@ where
         &mut self,
         tx: MegaTransaction,
     ) -> Result<MegaTransactionOutcome, EVMError<DB::Error, MegaTransactionError>> {
-        let ResultAndState { result, state } = if self.inspect {
-            InspectEvm::inspect_tx(self, tx)?
-        } else {
-            ExecuteEvm::transact(self, tx)?
-        };
+        let ResultAndState { result, state } = alloy_evm::Evm::transact_raw(self, tx)?;
         let additional_limit = self.ctx().additional_limit.borrow();
         let LimitUsage { data_size, kv_updates, compute_gas, state_growth } =
             additional_limit.get_usage();
-- 
2.43.0


From 4fe4b109ffd61d3e3d77d46a6c3ce337972d58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 04/16] fix: inspect the storage of a delegated account itself
 and follow a delegation once

Inspecting an account with an EIP-7702 delegation recursed over delegation
cycles until the stack overflowed, used the delegate's journaled storage in
place of the account's own storage, and depended on whether the database
returned code inline or by hash.
---
 crates/mega-evm/src/evm/instructions.rs | 92 ++++++++++++-------------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index d4ba736..6b95c1c 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1290,43 +1290,47 @@ pub trait JournalInspectTr: JournalTr {
     ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error>;
 }
 
+/// Inspects the account at the given address itself, without following an EIP-7702 delegation and
+/// without marking it as warm. The code of the account is loaded.
+fn inspect_account<DB: revm::Database>(
+    journal: &mut Journal<DB>,
+    address: Address,
+) -> Result<&mut Account, DB::Error> {
+    let transaction_id = journal.transaction_id;
+    let account = match journal.inner.state.entry(address) {
+        Entry::Occupied(entry) => entry.into_mut(),
+        Entry::Vacant(entry) => {
+            let mut account = journal
+                .database
+                .basic(address)?
+                .map(|info| info.into())
+                .unwrap_or_else(|| Account::new_not_existing(transaction_id));
+            // delibrately mark the account as cold since we are only inpecting it, not warming
+            // it.
+            account.mark_cold();
+            entry.insert(account)
+        }
+    };
+    if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
+        // Load code if not loaded before
+        account.info.code = Some(journal.database.code_by_hash(account.info.code_hash)?);
+    }
+    Ok(account)
+}
+
 impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
     fn inspect_account_delegated(
         &mut self,
         address: Address,
     ) -> Result<&mut Account, <Self::Database as revm::Database>::Error> {
-        let transaction_id = self.transaction_id;
-        let account = match self.inner.state.entry(address) {
-            Entry::Occupied(entry) => {
-                let account = entry.into_mut();
-                if account.info.code_hash != KECCAK_EMPTY && account.info.code.is_none() {
-                    // Load code if not loaded before
-                    account.info.code = Some(self.database.code_by_hash(account.info.code_hash)?);
-                }
-                account
-            }
-            Entry::Vacant(entry) => {
-                let mut account = self
-                    .database
-                    .basic(address)?
-                    .map(|info| info.into())
-                    .unwrap_or_else(|| Account::new_not_existing(transaction_id));
-                // delibrately mark the account as cold since we are only inpecting it, not warming
-                // it.
-                account.mark_cold();
-                entry.insert(account)
-            }
+        let account = inspect_account(self, address)?;
+        // If the account is a delegated account, inspect the delegated account. A delegation is
+        // followed only once, as in EIP-7702.
+        let address = match &account.info.code {
+            Some(Bytecode::Eip7702(code)) => code.address(),
+            _ => address,
         };
-
-        // If the account is a delegated account, inspect the delegated account.
-        if let Some(Bytecode::Eip7702(code)) = &account.info.code {
-            let address = code.address();
-            return self.inspect_account_delegated(address);
-        }
-
-        // Load account again to bypass the borrow checker.
-        let account = self.inner.state.get_mut(&address).unwrap();
-        Ok(account)
+        inspect_account(self, address)
     }
 
     fn inspect_storage(
@@ -1335,22 +1339,18 @@ impl<DB: revm::Database> JournalInspectTr for Journal<DB> {
         key: StorageKey,
     ) -> Result<&EvmStorageSlot, <Self::Database as revm::Database>::Error> {
         let transaction_id = self.transaction_id;
-        let account = self.inspect_account_delegated(address)?;
-        if account.storage.contains_key(&key) {
-            // Slot already exists, return reference to it
-            // Need to reload account to satisfy borrow checker
-            let account = self.inspect_account_delegated(address)?;
-            return Ok(account.storage.get(&key).unwrap());
+        // The storage always belongs to the account itself, even if its code is delegated.
+        let account = inspect_account(self, address)?;
+        if !account.storage.contains_key(&key) {
+            // Slot doesn't exist, load from DB and insert
+            let slot = self.database.storage(address, key)?;
+            let mut slot = EvmStorageSlot::new(slot, transaction_id);
+            // delibrately mark the slot as cold since we are only inpecting it, not warming it
+            slot.mark_cold();
+            // Load account again to bypass the borrow checker and insert the slot
+            inspect_account(self, address)?.storage.insert(key, slot);
         }
-        // Slot doesn't exist, load from DB and insert
-        let slot = self.database.storage(address, key)?;
-        let mut slot = EvmStorageSlot::new(slot, transaction_id);
-        // delibrately mark the slot as cold since we are only inpecting it, not warming it
-        slot.mark_cold();
-        // Load account again to bypass the borrow checker and insert the slot
-        let account = self.inspect_account_delegated(address)?;
-        account.storage.insert(key, slot);
-        // Return reference to the newly inserted slot
+        let account = inspect_account(self, address)?;
         Ok(account.storage.get(&key).expect("slot should exist"))
     }
 }
-- 
2.43.0


From 891dd573b783a3dbb614e7910d024a6e1372573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:00 +0000
Subject: [PATCH 05/16] fix: keep the oracle contract's storage when its code
 is upgraded

---
 crates/mega-evm/src/block/executor.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/block/executor.rs b/crates/mega-evm/src/block/executor.rs
index 3cbecd3..8afbd52 100644
--- a/crates/mega-evm/src/block/executor.rs
+++ b/crates/mega-evm/src/block/executor.rs
@@ -212,7 +212,21 @@ where
             self.evm.db_mut(),
         )
         .map_err(BlockExecutionError::other)?;
-        if let Some(state) = result_and_state {
+        if let Some(mut state) = result_and_state {
+            // Upgrading an already deployed oracle contract only replaces its code: the account is
+            // not created anew, otherwise its existing storage would be hidden from this block.
+            for (address, account) in &mut state {
+                let is_deployed = self
+                    .evm
+                    .db_mut()
+                    .load_cache_account(*address)
+                    .map_err(BlockExecutionError::other)?
+                    .account_info()
+                    .is_some_and(|info| !info.is_empty_code_hash());
+                if is_deployed {
+                    account.unmark_created();
+                }
+            }
             outcomes.push(MegaSystemCallOutcome {
                 // We tentatively use `StateChangeSource::Transaction(0)` as state change source as
                 // there is no specific source defined for this oracle contract in alloy. This may
-- 
2.43.0


From 62063cdc2c0532bd5c311e72d69357464a7e3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:32 +0000
Subject: [PATCH 06/16] fix: report storage failures met by a keyless
 deployment as errors

---
 crates/mega-evm/src/sandbox/execution.rs | 72 +++++++++++++++---------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index d9bf1dd..974e686 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -29,8 +29,8 @@ use alloy_sol_types::SolCall;
 use mega_system_contracts::keyless_deploy::IKeylessDeploy;
 use revm::{
     context::{
-        result::{ExecutionResult, ResultAndState},
-        ContextTr, TxEnv,
+        result::{EVMError, ExecutionResult, ResultAndState},
+        ContextError, ContextTr, TxEnv,
     },
     context_interface::Transaction,
     handler::FrameResult,
@@ -229,16 +229,16 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
 
     // Step 7: Check deploy address doesn't already have code
     {
-        let deploy_account = ctx
-            .journal_mut()
-            .database
-            .basic(deploy_address)
-            .map_err(|e| KeylessDeployError::InternalError(e.to_string()));
+        let deploy_account = ctx.journal_mut().database.basic(deploy_address);
         match deploy_account {
             Ok(Some(info)) if info.code_hash != KECCAK_EMPTY => {
                 return make_error!(KeylessDeployError::ContractAlreadyExists);
             }
-            Err(e) => return make_error!(e),
+            Err(e) => {
+                let error = KeylessDeployError::InternalError(e.to_string());
+                *ctx.error() = Err(ContextError::Db(e));
+                return make_error!(error);
+            }
             _ => {}
         }
     }
@@ -306,6 +306,16 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     let gas_price = sandbox_tx.gas_price();
     let value = sandbox_tx.value();
 
+    // A database failure is not an outcome of the deployment. It is left in the parent context so
+    // that the parent transaction fails with an error instead of producing a result.
+    macro_rules! database_error {
+        ($error:expr) => {{
+            let message = $error.to_string();
+            *ctx.error() = Err(ContextError::Custom(message.clone()));
+            KeylessDeployError::InternalError(message)
+        }};
+    }
+
     // Extract values we need BEFORE borrowing the journal
     let mega_spec = ctx.mega_spec();
     let block = ctx.block().clone();
@@ -320,10 +330,13 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         .with_nonce_override(deploy_signer);
 
     // Check signer balance
-    let signer_account = sandbox_db
-        .basic(deploy_signer)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
-        .unwrap_or_default();
+    let signer_account = match sandbox_db.basic(deploy_signer) {
+        Ok(info) => info.unwrap_or_default(),
+        Err(e) => {
+            drop(sandbox_db);
+            return Err(database_error!(e));
+        }
+    };
 
     // Ensure signer has enough balance to cover gas cost and value
     let gas_cost = U256::from(gas_limit) * U256::from(gas_price);
@@ -333,7 +346,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     }
 
     // Execute sandbox - using type-erased SandboxDb prevents infinite type instantiation
-    let sandbox_result: Result<SandboxOutcome, KeylessDeployError> = {
+    let sandbox_result: Result<Result<SandboxOutcome, KeylessDeployError>, _> = {
         // Create sandbox context with the type-erased database.
         // SandboxDb is a concrete type, so MegaContext<SandboxDb, ...> doesn't recurse.
         // Disable sandbox interception to prevent recursive sandbox creation.
@@ -362,30 +375,31 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
                                 error: KeylessDeployError::EmptyCodeDeployed { gas_used },
                             });
                         }
-                        Ok(SandboxOutcome::Success {
+                        Ok(Ok(SandboxOutcome::Success {
                             state: sandbox_state,
                             result: SandboxResult { deploy_address: created_addr, gas_used, logs },
-                        })
+                        }))
                     } else {
                         // Contract creation didn't return an address - should never happen
                         // but we return an error instead of panicking to avoid crashing the node
-                        Err(KeylessDeployError::NoContractCreated)
+                        Ok(Err(KeylessDeployError::NoContractCreated))
                     }
                 }
-                ExecutionResult::Revert { gas_used, output } => Ok(SandboxOutcome::Failure {
+                ExecutionResult::Revert { gas_used, output } => Ok(Ok(SandboxOutcome::Failure {
                     state: sandbox_state,
                     error: KeylessDeployError::ExecutionReverted { gas_used, output },
-                }),
-                ExecutionResult::Halt { gas_used, reason } => Ok(SandboxOutcome::Failure {
+                })),
+                ExecutionResult::Halt { gas_used, reason } => Ok(Ok(SandboxOutcome::Failure {
                     state: sandbox_state,
                     error: KeylessDeployError::ExecutionHalted { gas_used, reason },
-                }),
+                })),
             },
-            Err(e) => Err(KeylessDeployError::InternalError(e.to_string())),
+            Err(EVMError::Database(e)) => Err(e),
+            Err(e) => Ok(Err(KeylessDeployError::InternalError(e.to_string()))),
         }
     };
 
-    sandbox_result
+    sandbox_result.unwrap_or_else(|e| Err(database_error!(e)))
 }
 
 /// Outcome of sandbox execution, including state for merging on failure.
@@ -442,10 +456,12 @@ fn get_account_nonce<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     if let Some(acc) = journal.state.get(&address) {
         return Ok(acc.info.nonce);
     }
-    Ok(journal
-        .database
-        .basic(address)
-        .map_err(|e| KeylessDeployError::InternalError(e.to_string()))?
-        .map(|info| info.nonce)
-        .unwrap_or(0))
+    match journal.database.basic(address) {
+        Ok(info) => Ok(info.map(|info| info.nonce).unwrap_or(0)),
+        Err(e) => {
+            let error = KeylessDeployError::InternalError(e.to_string());
+            *ctx.error() = Err(ContextError::Db(e));
+            Err(error)
+        }
+    }
 }
-- 
2.43.0


From 3b40c9f6def124129cb71382b9e28eb7024d2662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:33 +0000
Subject: [PATCH 07/16] fix: commit keyless deployment changes to accounts
 loaded beforehand

---
 crates/mega-evm/src/sandbox/execution.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 974e686..a9f3807 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -41,8 +41,8 @@ use revm::{
 };
 
 use crate::{
-    constants, mark_frame_result_as_exceeding_limit, merge_evm_state_optional_status,
-    ExternalEnvTypes, MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
+    constants, mark_frame_result_as_exceeding_limit, merge_evm_state, ExternalEnvTypes,
+    MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
 };
 
 use super::tx::{calculate_keyless_deploy_address, decode_keyless_tx, recover_signer};
@@ -427,10 +427,11 @@ pub enum SandboxOutcome {
 /// touched or created. This is because we need to know which accounts are read but
 /// not written to obtain `ReadSet` to facilitate stateless witness generation.
 ///
-/// We do not merge any account status into the parent journal and the coldness of accounts and
-/// storage slots are preserved. This is because the changes in the sandbox are treated as a silent
-/// change in the database and should not affect the behavior of the current transaction (e.g., gas
-/// cost due to coldness) execept that the state itself are different.
+/// The coldness of accounts and storage slots is preserved. This is because the changes in the
+/// sandbox are treated as a silent change in the database and should not affect the behavior of the
+/// current transaction (e.g., gas cost due to coldness) except that the state itself is different.
+/// The other account statuses are merged: an account that the parent transaction has only loaded
+/// (e.g., through its access list) must be committed if the sandbox has changed it.
 ///
 /// The sandbox execution uses nonce 0 for the signer (Nick's Method), and after the CREATE
 /// transaction the nonce becomes 1. This nonce change is intentionally preserved in the parent
@@ -443,7 +444,7 @@ fn apply_sandbox_state<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     let journal = ctx.journal_mut();
 
     // Merge the sandbox state into the parent journal
-    merge_evm_state_optional_status(&mut journal.state, &sandbox_state, false);
+    merge_evm_state(&mut journal.state, &sandbox_state);
 
     Ok(())
 }
-- 
2.43.0


From de7de00d221ad7d65569f1630edf88f8db5a3d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 08/16] fix: report accounts read by failed keyless deployments
 and out-of-gas transactions

---
 crates/mega-evm/src/evm/execution.rs     |  8 +++++++-
 crates/mega-evm/src/evm/instructions.rs  |  2 +-
 crates/mega-evm/src/sandbox/execution.rs | 22 +++++++++++-----------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index b89044f..b8094fe 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -35,7 +35,7 @@ use revm::{
 
 use crate::{
     constants, create_exceeding_interpreter_result, create_exceeding_limit_frame_result,
-    is_mega_system_transaction, mark_frame_result_as_exceeding_limit,
+    inspect_account, is_mega_system_transaction, mark_frame_result_as_exceeding_limit,
     mark_interpreter_result_as_exceeding_limit, sandbox::execute_keyless_deploy_call,
     sent_from_mega_system_address, ExternalEnvTypes, HostExt, IKeylessDeploy, IOracle, MegaContext,
     MegaEvm, MegaHaltReason, MegaInstructions, MegaSpecId, MegaTransactionError, OracleEnv,
@@ -368,6 +368,12 @@ where
                     format!("Failed to get storage gas for callee address: {callee_address}",);
                 Self::Error::from_string(err_str)
             })?;
+
+            if kind.is_call() && initial_and_floor_gas.initial_gas > ctx.tx().gas_limit() {
+                // The transaction will halt before any frame loads the callee (see
+                // `before_execution`). Load it here, so that it is reported as read.
+                inspect_account(ctx.journal_mut(), callee_address)?;
+            }
         }
 
         Ok(initial_and_floor_gas)
diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index 6b95c1c..c784065 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1292,7 +1292,7 @@ pub trait JournalInspectTr: JournalTr {
 
 /// Inspects the account at the given address itself, without following an EIP-7702 delegation and
 /// without marking it as warm. The code of the account is loaded.
-fn inspect_account<DB: revm::Database>(
+pub(crate) fn inspect_account<DB: revm::Database>(
     journal: &mut Journal<DB>,
     address: Address,
 ) -> Result<&mut Account, DB::Error> {
diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index a9f3807..755f8af 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -41,8 +41,8 @@ use revm::{
 };
 
 use crate::{
-    constants, mark_frame_result_as_exceeding_limit, merge_evm_state, ExternalEnvTypes,
-    MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
+    constants, inspect_account, mark_frame_result_as_exceeding_limit, merge_evm_state,
+    ExternalEnvTypes, MegaContext, MegaEvm, MegaSpecId, MegaTransaction,
 };
 
 use super::tx::{calculate_keyless_deploy_address, decode_keyless_tx, recover_signer};
@@ -229,9 +229,11 @@ pub fn execute_keyless_deploy_call<DB: alloy_evm::Database, ExtEnvs: ExternalEnv
 
     // Step 7: Check deploy address doesn't already have code
     {
-        let deploy_account = ctx.journal_mut().database.basic(deploy_address);
-        match deploy_account {
-            Ok(Some(info)) if info.code_hash != KECCAK_EMPTY => {
+        // The account is loaded through the journal, so that it is reported as read even if nothing
+        // is deployed.
+        let deploy_account = inspect_account(ctx.journal_mut(), deploy_address);
+        match deploy_account.map(|account| account.info.code_hash) {
+            Ok(code_hash) if code_hash != KECCAK_EMPTY => {
                 return make_error!(KeylessDeployError::ContractAlreadyExists);
             }
             Err(e) => {
@@ -453,12 +455,10 @@ fn get_account_nonce<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     ctx: &mut MegaContext<DB, ExtEnvs>,
     address: Address,
 ) -> Result<u64, KeylessDeployError> {
-    let journal = ctx.journal_mut();
-    if let Some(acc) = journal.state.get(&address) {
-        return Ok(acc.info.nonce);
-    }
-    match journal.database.basic(address) {
-        Ok(info) => Ok(info.map(|info| info.nonce).unwrap_or(0)),
+    // The account is loaded through the journal, so that it is reported as read even if nothing is
+    // deployed.
+    match inspect_account(ctx.journal_mut(), address).map(|account| account.info.nonce) {
+        Ok(nonce) => Ok(nonce),
         Err(e) => {
             let error = KeylessDeployError::InternalError(e.to_string());
             *ctx.error() = Err(ContextError::Db(e));
-- 
2.43.0


From 85587834972ef2bcaa954f99957f513c711ed4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:04 +0000
Subject: [PATCH 09/16] fix: do not run a keyless deployment in a transaction
 that already exceeds a limit

---
 crates/mega-evm/src/evm/execution.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index b8094fe..8d74f95 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -660,6 +660,16 @@ where
                         if let Ok(call) =
                             IKeylessDeploy::keylessDeployCall::abi_decode(&input_bytes)
                         {
+                            // A transaction that already exceeds a limit must not deploy anything,
+                            // since the sandbox state changes cannot be reverted afterwards.
+                            if additional_limit.borrow_mut().check_limit().exceeded_limit() {
+                                return Ok(FrameInitResult::Result(
+                                    create_exceeding_limit_frame_result(
+                                        Gas::new(call_inputs.gas_limit),
+                                        Some(call_inputs.return_memory_offset.clone()),
+                                    ),
+                                ));
+                            }
                             let result = execute_keyless_deploy_call(
                                 self.ctx(),
                                 call_inputs,
-- 
2.43.0


From 6fdb0230a1de7e630509c1b9577d94950e2fc2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:18 +0000
Subject: [PATCH 10/16] fix: count access-list data size by length, not by
 spare capacity

---
 crates/mega-evm/src/limit/data_size.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/limit/data_size.rs b/crates/mega-evm/src/limit/data_size.rs
index 3cd96dc..8cd6508 100644
--- a/crates/mega-evm/src/limit/data_size.rs
+++ b/crates/mega-evm/src/limit/data_size.rs
@@ -2,7 +2,7 @@
 use alloc as std;
 use std::vec::Vec;
 
-use alloy_primitives::{Address, U256};
+use alloy_primitives::{Address, B256, U256};
 use revm::{
     context::{transaction::AuthorizationTr, Transaction},
     interpreter::{InstructionResult, SStoreResult},
@@ -169,7 +169,15 @@ impl DataSizeTracker {
         // bytes for the access list of a transaction
         size += tx
             .access_list()
-            .map(|item| item.map(|access| access.size() as u64).sum::<u64>())
+            .map(|items| {
+                // The encoded length: the item's in-memory size would depend on spare capacity.
+                items
+                    .map(|access| {
+                        (size_of::<Address>() + access.storage_keys.len() * size_of::<B256>())
+                            as u64
+                    })
+                    .sum::<u64>()
+            })
             .unwrap_or_default();
         // bytes for the EIP-7702 authorization list of a transaction (101 bytes per authorization)
         size += tx.authorization_list_len() as u64 * AUTHORIZATION_SIZE;
-- 
2.43.0


From a72b9b96907ae1e96759d45913ced4a7b5102a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:35 +0000
Subject: [PATCH 11/16] fix: price CREATE2 without reading beyond the current
 memory

---
 crates/mega-evm/src/evm/instructions.rs | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/mega-evm/src/evm/instructions.rs b/crates/mega-evm/src/evm/instructions.rs
index c784065..c4630aa 100644
--- a/crates/mega-evm/src/evm/instructions.rs
+++ b/crates/mega-evm/src/evm/instructions.rs
@@ -1,20 +1,20 @@
 #[cfg(not(feature = "std"))]
 use alloc as std;
 use core::cmp::min;
-use std::format;
+use std::{format, vec};
 
 use crate::{
     constants::{self},
     AdditionalLimit, ExternalEnvTypes, HostExt, MegaContext, MegaSpecId,
 };
 use alloy_evm::Database;
-use alloy_primitives::{keccak256, Address, Bytes, U256};
+use alloy_primitives::{keccak256, Address, U256};
 use revm::{
     context::{ContextTr, JournalTr},
     context_interface::context::ContextError,
     handler::instructions::{EthInstructions, InstructionProvider},
     interpreter::{
-        as_usize_or_fail, gas, gas_or_fail,
+        as_usize_or_fail, as_usize_saturated, gas, gas_or_fail,
         instructions::{self, control, utility::IntoAddress},
         interpreter::EthInterpreter,
         interpreter_types::{InputsTr, LoopControl, MemoryTr, RuntimeFlag},
@@ -894,11 +894,23 @@ pub mod storage_gas_ext {
                 context.interpreter.halt(InstructionResult::StackUnderflow);
                 return;
             };
-            let initcode_offset = as_usize_or_fail!(context.interpreter, initcode_offset);
+            let initcode_offset = as_usize_saturated!(initcode_offset);
             let initcode_len = as_usize_or_fail!(context.interpreter, initcode_len);
-            let code = Bytes::copy_from_slice(
-                context.interpreter.memory.slice_len(initcode_offset, initcode_len).as_ref(),
-            );
+            if initcode_len > context.host.max_initcode_size() {
+                // Never hash oversized initcode. The original instruction halts on it.
+                run_inner_instruction_or_abort!(compute_gas_ext::create2, context);
+                return;
+            }
+            // The memory is expanded by the original instruction only, so the part of the initcode
+            // beyond the current memory is still missing. It will be zero.
+            let mut code = vec![0; initcode_len];
+            let available =
+                context.interpreter.memory.size().saturating_sub(initcode_offset).min(initcode_len);
+            if available > 0 {
+                code[..available].copy_from_slice(
+                    context.interpreter.memory.slice_len(initcode_offset, available).as_ref(),
+                );
+            }
             let initcode_hash = keccak256(&code);
 
             let Some(salt) = context.interpreter.stack.inspect::<3>() else {
-- 
2.43.0


From 0994f57059944191712f7fd8d2c87cd79c9da734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:09 +0000
Subject: [PATCH 12/16] fix: destroy accounts that a keyless deployment creates
 and destroys on top of a funded address

---
 crates/mega-evm/src/sandbox/execution.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 755f8af..9d0bb3a 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -448,6 +448,21 @@ fn apply_sandbox_state<DB: alloy_evm::Database, ExtEnvs: ExternalEnvTypes>(
     // Merge the sandbox state into the parent journal
     merge_evm_state(&mut journal.state, &sandbox_state);
 
+    // The merge replaces a destroyed account by an empty one. If the account already exists in the
+    // database (e.g., the deploy address has been funded beforehand), it must still be recognizable
+    // as destroyed, since an existing account cannot become empty in any other way.
+    // Its storage slots are kept for the `ReadSet`.
+    for (address, destroyed) in sandbox_state {
+        if !destroyed.is_selfdestructed() {
+            continue;
+        }
+        if let Some(account) = journal.state.get_mut(&address) {
+            account.storage = destroyed.storage;
+            account.mark_created();
+            account.mark_selfdestruct();
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 23fb8181aee8f0b8b6e90cda33b5401077817c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:09 +0000
Subject: [PATCH 13/16] fix: report failures of the block opening calls as
 internal errors

---
 crates/mega-evm/src/block/eips.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/mega-evm/src/block/eips.rs b/crates/mega-evm/src/block/eips.rs
index da74708..0c6ea83 100644
--- a/crates/mega-evm/src/block/eips.rs
+++ b/crates/mega-evm/src/block/eips.rs
@@ -49,9 +49,9 @@ pub(crate) fn transact_blockhashes_contract_call<Halt>(
         parent_block_hash.0.into(),
     ) {
         Ok(res) => res,
-        Err(e) => {
-            return Err(BlockValidationError::BlockHashContractCall { message: e.to_string() }.into())
-        }
+        // The call is not validated like a transaction, so an error is a failure of the node (e.g.,
+        // of its database) and does not make the block invalid.
+        Err(e) => return Err(BlockExecutionError::other(e)),
     };
 
     Ok(Some(res))
@@ -97,13 +97,9 @@ pub(crate) fn transact_beacon_root_contract_call<Halt>(
         parent_beacon_block_root.0.into(),
     ) {
         Ok(res) => res,
-        Err(e) => {
-            return Err(BlockValidationError::BeaconRootContractCall {
-                parent_beacon_block_root: Box::new(parent_beacon_block_root),
-                message: e.to_string(),
-            }
-            .into())
-        }
+        // The call is not validated like a transaction, so an error is a failure of the node (e.g.,
+        // of its database) and does not make the block invalid.
+        Err(e) => return Err(BlockExecutionError::other(e)),
     };
 
     Ok(Some(res))
-- 
2.43.0


From 2977a0731a4d7923c14c80237673d20b515f599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:14 +0000
Subject: [PATCH 14/16] fix: warm an oracle slot that the oracle service
 answers

A transaction that reads a served oracle slot and then reaches an SSTORE to the
same slot was priced as a cold SSTORE on a node with the oracle service and as a
warm one on a node that replays it without.
---
 crates/mega-evm/src/evm/host.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/evm/host.rs b/crates/mega-evm/src/evm/host.rs
index 70b1811..4f6a611 100644
--- a/crates/mega-evm/src/evm/host.rs
+++ b/crates/mega-evm/src/evm/host.rs
@@ -102,7 +102,11 @@ impl<DB: Database, ExtEnvs: ExternalEnvTypes> Host for MegaContext<DB, ExtEnvs>
 
             // if the oracle env provides a value, return it. Otherwise, fallback to the inner
             // context.
-            if let Some(value) = self.oracle_env.borrow().get_oracle_storage(key) {
+            let oracle_value = self.oracle_env.borrow().get_oracle_storage(key);
+            if let Some(value) = oracle_value {
+                // The slot is loaded nevertheless, so that it is warm for a later SSTORE just as it
+                // is when the same transaction is replayed without the oracle_env.
+                self.inner.sload(address, key)?;
                 // Accessing oracle contract storage is forced to be cold access, since it always
                 // reads from the outside world (oracle_env).
                 return Some(StateLoad::new(value, true));
-- 
2.43.0


From a1d82398a85f9cd02ecf3ff5fc3690c5da14ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:21 +0000
Subject: [PATCH 15/16] fix: report volatile data read by a keyless
 deployment's init code

---
 crates/mega-evm/src/access/tracker.rs    | 6 ++++++
 crates/mega-evm/src/sandbox/execution.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/mega-evm/src/access/tracker.rs b/crates/mega-evm/src/access/tracker.rs
index beab007..afc535d 100644
--- a/crates/mega-evm/src/access/tracker.rs
+++ b/crates/mega-evm/src/access/tracker.rs
@@ -149,6 +149,12 @@ impl VolatileDataAccessTracker {
         }
     }
 
+    /// Records the volatile data accessed by a sandboxed execution on behalf of this transaction.
+    /// The sandbox has enforced its own compute gas limit, so that no limit is set here.
+    pub(crate) fn record_sandbox_accesses(&mut self, accessed: VolatileDataAccess) {
+        self.volatile_data_accessed.insert(accessed);
+    }
+
     /// Applies a compute gas limit or creates a new one if none exists.
     /// If a limit already exists, applies the more restrictive limit (minimum of current and new).
     fn apply_or_create_limit(&mut self, limit: u64) {
diff --git a/crates/mega-evm/src/sandbox/execution.rs b/crates/mega-evm/src/sandbox/execution.rs
index 9d0bb3a..3152f36 100644
--- a/crates/mega-evm/src/sandbox/execution.rs
+++ b/crates/mega-evm/src/sandbox/execution.rs
@@ -33,7 +33,7 @@ use revm::{
         ContextError, ContextTr, TxEnv,
     },
     context_interface::Transaction,
-    handler::FrameResult,
+    handler::{EvmTr, FrameResult},
     interpreter::{CallOutcome, Gas, Host, InstructionResult, InterpreterResult},
     primitives::KECCAK_EMPTY,
     state::EvmState,
@@ -322,6 +322,7 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
     let mega_spec = ctx.mega_spec();
     let block = ctx.block().clone();
     let chain = ctx.chain().clone();
+    let volatile_data_tracker = ctx.volatile_data_tracker.clone();
     let journal = ctx.journal_mut();
 
     // Create type-erased sandbox database with split borrows:
@@ -361,6 +362,11 @@ pub fn execute_keyless_deploy_sandbox<DB: alloy_evm::Database, ExtEnvs: External
         // Execute the transaction
         let result = sandbox_evm.transact_raw(sandbox_tx);
 
+        // The parent transaction depends on whatever volatile data the sandbox has read.
+        let accessed =
+            sandbox_evm.ctx_ref().volatile_data_tracker.borrow().get_volatile_data_accessed();
+        volatile_data_tracker.borrow_mut().record_sandbox_accesses(accessed);
+
         // Process result and extract what we need
         match result {
             Ok(ResultAndState { result: exec_result, state: sandbox_state }) => match exec_result {
-- 
2.43.0


From 7929963d8a6baae734df7b3cd4fe8464ddf4f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:52 +0000
Subject: [PATCH 16/16] fix: keep the gas rescued by a limit halt when a tracer
 spends failed frames' gas

revm's GasInspector, and with it TracerEip3155, spends all gas of a frame that
failed. The gas left in frames stopped by an additional limit was rescued only
afterwards, so tracing a transaction changed its gas and its state.
---
 crates/mega-evm/src/evm/execution.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/mega-evm/src/evm/execution.rs b/crates/mega-evm/src/evm/execution.rs
index 8d74f95..a7955a6 100644
--- a/crates/mega-evm/src/evm/execution.rs
+++ b/crates/mega-evm/src/evm/execution.rs
@@ -854,7 +854,7 @@ where
         let frame_input = frame_init.frame_input.clone();
         if let ItemOrResult::Result(mut output) = self.frame_init(frame_init)? {
             let (ctx, inspector) = self.ctx_inspector();
-            frame_end(ctx, inspector, &frame_input, &mut output);
+            frame_end_keeping_rescued_gas(ctx, inspector, &frame_input, &mut output);
             return Ok(ItemOrResult::Result(output));
         }
 
@@ -911,13 +911,35 @@ where
         // Call frame_end for inspector callback
         if let ItemOrResult::Result(frame_result) = &mut frame_output {
             let (ctx, inspector, frame) = self.ctx_inspector_frame();
-            frame_end(ctx, inspector, frame.frame_input(), frame_result);
+            frame_end_keeping_rescued_gas(ctx, inspector, frame.frame_input(), frame_result);
         }
 
         Ok(frame_output)
     }
 }
 
+/// Notifies the inspector that a frame has ended. The gas left in a frame that is stopped by an
+/// additional limit is given back to the sender afterwards, so an inspector that spends all gas of
+/// failed frames (as revm's `GasInspector` and hence `TracerEip3155` do) must not consume it.
+fn frame_end_keeping_rescued_gas<DB, INSP, ExtEnvs>(
+    ctx: &mut MegaContext<DB, ExtEnvs>,
+    inspector: &mut INSP,
+    frame_input: &FrameInput,
+    frame_result: &mut FrameResult,
+) where
+    DB: Database,
+    INSP: Inspector<MegaContext<DB, ExtEnvs>>,
+    ExtEnvs: ExternalEnvTypes,
+{
+    let gas = *frame_result.gas();
+    frame_end(ctx, inspector, frame_input, frame_result);
+    if ctx.spec.is_enabled(MegaSpecId::MINI_REX) &&
+        ctx.additional_limit.borrow().has_exceeded_limit.exceeded_limit()
+    {
+        *frame_result.gas_mut() = gas;
+    }
+}
+
 fn gen_oog_frame_result(tx_kind: TxKind, gas_limit: u64) -> FrameResult {
     // If not sufficient gas, we halt with out of gas
     match tx_kind {
-- 
2.43.0

