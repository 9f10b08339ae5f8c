From 5e64e7f3ac29931f0fc2544708160c6baf6afb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 1/4] fix: report overflowing input sums as ArithmeticOverflow
 instead of wrapping or panicking

---
 src/checked_transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..21b589e 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,10 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0


From 321152079085e1726e503c95af9bc769f061bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 2/4] fix: reject hostile lengths when decoding instead of
 panicking or over-allocating

---
 src/receipt/receipt_std.rs       |  7 ++++---
 src/transaction.rs               |  2 +-
 src/transaction/txio.rs          | 26 ++++++++++++++++++++++++++
 src/transaction/types/create.rs  | 25 +++++++++++++++++--------
 src/transaction/types/input.rs   | 12 +++++++-----
 src/transaction/types/mint.rs    |  7 +++++--
 src/transaction/types/script.rs  | 27 +++++++++++++++++++--------
 src/transaction/types/witness.rs |  4 +++-
 8 files changed, 82 insertions(+), 28 deletions(-)

diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..4f237f8 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -5,6 +5,7 @@ use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
 use fuel_types::Word;
 
 use crate::receipt::script_result::ScriptExecutionResult;
+use crate::transaction::txio;
 use std::io::{self, Write};
 
 impl io::Read for Receipt {
@@ -269,7 +270,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = txio::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +330,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = txio::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +393,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = txio::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/transaction.rs b/src/transaction.rs
index f5f82f0..6eec7f9 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -15,7 +15,7 @@ mod types;
 mod id;
 
 #[cfg(feature = "std")]
-mod txio;
+pub(crate) mod txio;
 
 pub mod consensus_parameters;
 
diff --git a/src/transaction/txio.rs b/src/transaction/txio.rs
index 2f9d097..85eff40 100644
--- a/src/transaction/txio.rs
+++ b/src/transaction/txio.rs
@@ -6,6 +6,32 @@ use fuel_types::Word;
 
 use std::io::{self, Write};
 
+/// Same as [`bytes::restore_raw_bytes`], but rejects lengths exceeding the buffer upfront, so an
+/// untrusted `len` can't overflow the padding arithmetic.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if len > buf.len() {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// Same as [`bytes::restore_bytes`], but rejects lengths exceeding the buffer upfront, so an
+/// untrusted length can't overflow the padding arithmetic.
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < WORD_SIZE {
+        return Err(bytes::eof());
+    }
+
+    // Safety: buffer size is checked
+    let (len, data) = unsafe { bytes::restore_usize_unchecked(buf) };
+    if len > data.len() {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_bytes(buf)
+}
+
 impl Transaction {
     pub fn try_from_bytes(bytes: &[u8]) -> io::Result<(usize, Self)> {
         let mut tx = Self::default();
diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..cdaa24c 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -645,32 +645,41 @@ impl io::Write for Create {
 
         let salt = salt.into();
 
-        let mut storage_slots = vec![StorageSlot::default(); storage_slots_len as usize];
+        // The lengths are untrusted, so the items are allocated only as they are decoded
+        let mut storage_slots = Vec::new();
         n += StorageSlot::SLOT_SIZE * storage_slots_len as usize;
-        for storage_slot in storage_slots.iter_mut() {
+        for _ in 0..storage_slots_len {
+            let mut storage_slot = StorageSlot::default();
             let _ = storage_slot.write(buf)?;
             buf = &buf[StorageSlot::SLOT_SIZE..];
+            storage_slots.push(storage_slot);
         }
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        let mut inputs = Vec::new();
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        let mut witnesses = Vec::new();
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Create {
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..b0e89df 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -11,6 +11,8 @@ use fuel_types::bytes::{Deserializable, SizedBytes, WORD_SIZE};
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::transaction::txio;
 #[cfg(feature = "std")]
 use std::io;
 
@@ -733,10 +735,10 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = txio::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = txio::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +819,13 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = txio::restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = txio::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = txio::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..d03950b 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -287,11 +287,14 @@ impl io::Write for Mint {
         let buf = &buf[tx_pointer.serialized_size()..];
         let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        // The length is untrusted, so the items are allocated only as they are decoded
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
         *self = Mint {
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..41de302 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -19,6 +19,8 @@ use std::io;
 use alloc::vec::Vec;
 use fuel_asm::Opcode;
 
+#[cfg(feature = "std")]
+use crate::transaction::txio;
 #[cfg(feature = "std")]
 use fuel_types::bytes::SerializableVec;
 
@@ -630,31 +632,40 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = txio::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, mut buf) = txio::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        // The length is untrusted, so the items are allocated only as they are decoded
+        let mut inputs = Vec::new();
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        // The length is untrusted, so the items are allocated only as they are decoded
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        // The length is untrusted, so the items are allocated only as they are decoded
+        let mut witnesses = Vec::new();
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Script {
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..f365d93 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -8,6 +8,8 @@ use rand::{
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::transaction::txio;
 #[cfg(feature = "std")]
 use std::io;
 
@@ -89,7 +91,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        txio::restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From f42e101617e94fc06d7c42a981cfb2f445187c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 3/4] fix: reject non-hexadecimal UTXO id and tx pointer text
 instead of panicking on multibyte characters

---
 src/transaction/types/utxo_id.rs | 3 +++
 src/tx_pointer.rs                | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..e36bf97 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -85,6 +85,9 @@ impl str::FromStr for UtxoId {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
         let s = s.trim_start_matches("0x");
+        if !s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err(ERR);
+        }
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..9b58dad 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -68,7 +68,7 @@ impl str::FromStr for TxPointer {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
 
-        if s.len() != 12 {
+        if s.len() != 12 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
             return Err(ERR);
         }
 
-- 
2.43.0


From 00dd60299293af0e7f51f1e3049d002fa01a1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 4/4] fix: write every byte of the advertised receipt size, so
 stale buffer content never leaks into receipts

---
 src/receipt/receipt_std.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 4f237f8..238abd5 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -2,12 +2,16 @@ use super::{Receipt, ReceiptRepr};
 
 use fuel_asm::InstructionResult;
 use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
-use fuel_types::Word;
+use fuel_types::{ContractId, Word};
 
 use crate::receipt::script_result::ScriptExecutionResult;
 use crate::transaction::txio;
 use std::io::{self, Write};
 
+/// Size of the `id`, `pc` and `is` fields, which are accounted for every receipt but aren't written
+/// for the ones that don't have them.
+const UNUSED_SIZE: usize = ContractId::LEN + WORD_SIZE + WORD_SIZE;
+
 impl io::Read for Receipt {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let len = self.serialized_size();
@@ -185,7 +189,10 @@ impl io::Read for Receipt {
                 let result = Word::from(*result);
                 let buf = bytes::store_number_unchecked(buf, result);
 
-                bytes::store_number_unchecked(buf, *gas_used);
+                let buf = bytes::store_number_unchecked(buf, *gas_used);
+
+                // The remainder of the fixed size is unused
+                buf[..UNUSED_SIZE].fill(0);
             }
 
             Self::MessageOut {
@@ -208,7 +215,10 @@ impl io::Read for Receipt {
                 let buf = bytes::store_number_unchecked(buf, *len);
                 let buf = bytes::store_array_unchecked(buf, digest);
 
-                bytes::store_bytes(buf, data)?;
+                let (_, buf) = bytes::store_bytes(buf, data)?;
+
+                // The remainder of the fixed size is unused
+                buf[..UNUSED_SIZE].fill(0);
             }
         }
 
-- 
2.43.0

