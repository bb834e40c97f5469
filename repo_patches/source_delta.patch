From afe4d297f3398b5d4b9f37e455401b1bb9706bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 01/30] fix: implement Display and source for v2 decode and
 extract errors

---
 src/v2/error.rs   | 24 ++++++++++++++++++++++--
 src/v2/extract.rs | 20 ++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..3b134e5 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => f.write_str("invalid magic"),
+            InvalidSeparator => f.write_str("invalid separator"),
+            NoMorePairs => f.write_str("no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "error decoding the global map"; e),
+            DecodeInput(ref e) => write_err!(f, "error decoding an input map"; e),
+            DecodeOutput(ref e) => write_err!(f, "error decoding an output map"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..9d1105e 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,28 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized =>
+                write!(f, "attempted to extract transaction from an unfinalized PSBT"),
+            DetermineLockTime(ref e) =>
+                write_err!(f, "extractor must be able to determine the lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => None,
+            DetermineLockTime(ref e) => Some(e),
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
-- 
2.43.0


From e636cb55c754a5098c81847029c308a22ec482e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 02/30] fix: reject a duplicate input count, whatever order the
 counts come in

---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From ffa05e079b9ceceb161f5017a4733d6af1e0716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 03/30] fix: do not allocate memory based on the untrusted v2
 counts

---
 src/v2/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..5e54afa 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,8 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            // The count is not trusted, do not allocate based on it.
+            let mut inputs: Vec<Input> = Vec::new();
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +642,8 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            // The count is not trusted, do not allocate based on it.
+            let mut outputs: Vec<Output> = Vec::new();
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From 519f7e961b9798052adb54ecad6d55ee6f41724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 04/30] fix: track required v2 input and output fields by
 presence, not by value

---
 src/v2/map/input.rs  | 44 +++++++++++++++++++++++++++-----------------
 src/v2/map/output.rs | 42 +++++++++++++++++++++++++++---------------
 2 files changed, 54 insertions(+), 32 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..7b5df75 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -393,24 +393,21 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
-        let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
-        let mut rv = Self::new(&invalid);
+        // Placeholder values, replaced by those of the required fields below.
+        let mut rv = Self::new(&OutPoint { txid: Txid::all_zeros(), vout: u32::MAX });
+        let mut previous_txid: Option<Txid> = None;
+        let mut spent_output_index: Option<u32> = None;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut previous_txid, &mut spent_output_index)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
-            return Err(DecodeError::MissingPreviousTxid);
-        }
-        if rv.spent_output_index == u32::MAX {
-            return Err(DecodeError::MissingSpentOutputIndex);
-        }
+        rv.previous_txid = previous_txid.ok_or(DecodeError::MissingPreviousTxid)?;
+        rv.spent_output_index = spent_output_index.ok_or(DecodeError::MissingSpentOutputIndex)?;
 
         #[cfg(feature = "silent-payments")]
         {
@@ -424,23 +421,36 @@ impl Input {
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    /// Inserts `pair` into this input.
+    ///
+    /// The fields required to be in every input are put into `previous_txid` and
+    /// `spent_output_index` instead, so the caller can tell if they were present.
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        previous_txid: &mut Option<Txid>,
+        spent_output_index: &mut Option<u32>,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
             PSBT_IN_PREVIOUS_TXID => {
-                if self.previous_txid != Txid::all_zeros() {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
+                if previous_txid.is_some() {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
-                let txid: Txid = Deserialize::deserialize(&raw_value)?;
-                self.previous_txid = txid;
+                *previous_txid = Some(Deserialize::deserialize(&raw_value)?);
             }
             PSBT_IN_OUTPUT_INDEX => {
-                if self.spent_output_index != u32::MAX {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
+                if spent_output_index.is_some() {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
-                let vout: u32 = Deserialize::deserialize(&raw_value)?;
-                self.spent_output_index = vout;
+                *spent_output_index = Some(Deserialize::deserialize(&raw_value)?);
             }
             PSBT_IN_SEQUENCE => {
                 v2_impl_psbt_insert_pair! {
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..6b4ea58 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -106,26 +106,25 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
-        let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
-        let mut rv = Self::new(invalid);
+        let mut rv = Self::default();
+        let mut amount: Option<Amount> = None;
+        let mut script_pubkey: Option<ScriptBuf> = None;
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut amount, &mut script_pubkey)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
-            return Err(DecodeError::MissingValue);
-        }
+        rv.amount = amount.ok_or(DecodeError::MissingValue)?;
         // BIP-375 allows outputs to be missing scriptPubkey
         #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
+        if script_pubkey.is_none() {
             return Err(DecodeError::MissingScriptPubkey);
         }
+        rv.script_pubkey = script_pubkey.unwrap_or_default();
 
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
@@ -135,23 +134,36 @@ impl Output {
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    /// Inserts `pair` into this output.
+    ///
+    /// The required fields are put into `amount` and `script_pubkey` instead, so the caller can
+    /// tell if they were present.
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        amount: &mut Option<Amount>,
+        script_pubkey: &mut Option<ScriptBuf>,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
             PSBT_OUT_AMOUNT => {
-                if self.amount != Amount::ZERO {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
+                if amount.is_some() {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
-                let amount: Amount = Deserialize::deserialize(&raw_value)?;
-                self.amount = amount;
+                *amount = Some(Deserialize::deserialize(&raw_value)?);
             }
             PSBT_OUT_SCRIPT => {
-                if self.script_pubkey != ScriptBuf::default() {
+                if !raw_key.key.is_empty() {
+                    return Err(InsertPairError::InvalidKeyDataNotEmpty(raw_key));
+                }
+                if script_pubkey.is_some() {
                     return Err(InsertPairError::DuplicateKey(raw_key));
                 }
-                let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
-                self.script_pubkey = script;
+                *script_pubkey = Some(Deserialize::deserialize(&raw_value)?);
             }
 
             PSBT_OUT_REDEEM_SCRIPT => {
-- 
2.43.0


From 417fa8a646a67d1f4b780707c8860893301ab8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 05/30] fix: report inconsistent xpub key sources when
 combining instead of panicking (v0)

---
 src/v0/bitcoin/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..f7a9505 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() <= derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From 9c9ec9950719295d0b43210bee5f2bcaf063673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 06/30] fix: report inconsistent xpub key sources when
 combining instead of panicking (v2)

---
 src/v2/map/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..b4abb35 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From 65b321312b4c2e50e45ec55ae80dee67b3a54785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 07/30] fix: keep all the data of both PSBTs when combining
 (v2)

---
 src/v2/map/global.rs | 8 ++++++++
 src/v2/map/input.rs  | 9 ++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index b4abb35..8b2a36b 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -444,6 +444,14 @@ impl Global {
             }
         }
 
+        v2_combine_option!(fallback_lock_time, self, other);
+
+        // Inputs/outputs can be modified only if both PSBTs allow it. The other flags, i.e. "has
+        // SIGHASH_SINGLE", are set if they are set in either of the PSBTs.
+        const MODIFIABLE: u8 = INPUTS_MODIFIABLE | OUTPUTS_MODIFIABLE;
+        let (this, that) = (self.tx_modifiable_flags, other.tx_modifiable_flags);
+        self.tx_modifiable_flags = (this & that & MODIFIABLE) | ((this | that) & !MODIFIABLE);
+
         #[cfg(feature = "silent-payments")]
         v2_combine_map!(sp_ecdh_shares, self, other);
         #[cfg(feature = "silent-payments")]
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 7b5df75..ce436c9 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -632,14 +632,9 @@ impl Input {
         v2_combine_option!(min_height, self, other);
         v2_combine_option!(non_witness_utxo, self, other);
 
-        // TODO: Copied from v0, confirm this is correct.
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
-
+        v2_combine_option!(witness_utxo, self, other);
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From 9776a8273001d96713af9a7f156c373248680efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 08/30] fix: resolve conflicts independently of the order of
 combining (v2)

---
 src/macros.rs    | 30 ++++++++++++++++++++++++------
 src/serialize.rs |  5 +++++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 6e5cc88..0ab2e86 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -2,20 +2,38 @@
 
 /// Combines two `Option<Foo>` fields.
 ///
-/// Sets `self.thing` to be `Some(other.thing)` iff `self.thing` is `None`.
-/// If `self.thing` already contains a value then this macro does nothing.
+/// Sets `self.thing` to be `Some(other.thing)` iff `self.thing` is `None`. If both contain a value
+/// keeps the one that has the greater serialization so that the result does not depend on the order
+/// of combining.
 macro_rules! v2_combine_option {
     ($thing:ident, $slf:ident, $other:ident) => {
-        if let (&None, Some($thing)) = (&$slf.$thing, $other.$thing) {
-            $slf.$thing = Some($thing);
+        if let Some(that) = $other.$thing {
+            match $slf.$thing {
+                Some(ref this)
+                    if $crate::serialize::Serialize::serialize(this)
+                        >= $crate::serialize::Serialize::serialize(&that) => {}
+                _ => $slf.$thing = Some(that),
+            }
         }
     };
 }
 
-/// Combines to `BTreeMap` fields by extending the map in `self.thing`.
+/// Combines two `BTreeMap` fields by extending the map in `self.thing`.
+///
+/// If both maps contain a key keeps the value that has the greater serialization so that the result
+/// does not depend on the order of combining.
 macro_rules! v2_combine_map {
     ($thing:ident, $slf:ident, $other:ident) => {
-        $slf.$thing.extend($other.$thing)
+        for (key, that) in $other.$thing {
+            match $slf.$thing.get(&key) {
+                Some(this)
+                    if $crate::serialize::Serialize::serialize(this)
+                        >= $crate::serialize::Serialize::serialize(&that) => {}
+                _ => {
+                    $slf.$thing.insert(key, that);
+                }
+            }
+        }
     };
 }
 
diff --git a/src/serialize.rs b/src/serialize.rs
index 5ee5e67..ee63304 100644
--- a/src/serialize.rs
+++ b/src/serialize.rs
@@ -70,6 +70,11 @@ impl Deserialize for ScriptBuf {
     fn deserialize(bytes: &[u8]) -> Result<Self, Error> { Ok(Self::from(bytes.to_vec())) }
 }
 
+#[cfg(feature = "silent-payments")]
+impl Serialize for bitcoin::CompressedPublicKey {
+    fn serialize(&self) -> Vec<u8> { self.to_bytes().to_vec() }
+}
+
 impl Serialize for PublicKey {
     fn serialize(&self) -> Vec<u8> {
         let mut buf = Vec::new();
-- 
2.43.0


From 53b2adda103eb59b50f62524acbb9e54a277d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 09/30] fix: refuse to combine v2 PSBTs that are for different
 transactions

---
 src/v2/mod.rs | 64 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 5e54afa..e59805b 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -674,7 +674,26 @@ impl Psbt {
     /// This function is commutative `A.combine_with(B) = B.combine_with(A)`.
     ///
     /// See [`combine()`] for a non-consuming version of this function.
+    ///
+    /// # Errors
+    ///
+    /// If the PSBTs are not for the same transaction i.e., if the unique identification differs.
     pub fn combine_with(mut self, other: Self) -> Result<Psbt, CombineError> {
+        if self.inputs.len() != other.inputs.len() {
+            return Err(CombineError::InputCountMismatch {
+                this: self.inputs.len(),
+                that: other.inputs.len(),
+            });
+        }
+        if self.outputs.len() != other.outputs.len() {
+            return Err(CombineError::OutputCountMismatch {
+                this: self.outputs.len(),
+                that: other.outputs.len(),
+            });
+        }
+        let this_id = self.id()?;
+        let that_id = other.id()?;
+
         self.global.combine(other.global)?;
 
         for (self_input, other_input) in self.inputs.iter_mut().zip(other.inputs.into_iter()) {
@@ -685,6 +704,12 @@ impl Psbt {
             self_output.combine(other_output)?;
         }
 
+        // The inputs and outputs are the same, this leaves the lock time. The combined lock time
+        // requirements must not result in a lock time that either of the PSBTs does not have.
+        if this_id != that_id || self.id()? != this_id {
+            return Err(CombineError::IdMismatch { this: this_id, that: that_id });
+        }
+
         Ok(self)
     }
 
@@ -1315,10 +1340,33 @@ mod display_from_str {
     }
 }
 
-/// Error combining two input maps.
+/// Error combining two PSBTs.
 #[derive(Debug, Clone, PartialEq, Eq)]
 #[non_exhaustive]
 pub enum CombineError {
+    /// The number of inputs is not the same.
+    InputCountMismatch {
+        /// Attempted to combine a PBST with `this` number of inputs.
+        this: usize,
+        /// Into a PBST with `that` number of inputs.
+        that: usize,
+    },
+    /// The number of outputs is not the same.
+    OutputCountMismatch {
+        /// Attempted to combine a PBST with `this` number of outputs.
+        this: usize,
+        /// Into a PBST with `that` number of outputs.
+        that: usize,
+    },
+    /// The unique identification is not the same.
+    IdMismatch {
+        /// Attempted to combine a PBST with `this` unique identification.
+        this: Txid,
+        /// Into a PBST with `that` unique identification.
+        that: Txid,
+    },
+    /// Combiner must be able to determine the lock time.
+    DetermineLockTime(DetermineLockTimeError),
     /// Error while combining the global maps.
     Global(global::CombineError),
     /// Error while combining the input maps.
@@ -1332,6 +1380,14 @@ impl fmt::Display for CombineError {
         use CombineError::*;
 
         match *self {
+            InputCountMismatch { this, that } =>
+                write!(f, "combine two PSBTs with different input counts: {} {}", this, that),
+            OutputCountMismatch { this, that } =>
+                write!(f, "combine two PSBTs with different output counts: {} {}", this, that),
+            IdMismatch { ref this, ref that } =>
+                write!(f, "combine two PSBTs with different ids: {} {}", this, that),
+            DetermineLockTime(ref e) =>
+                write_err!(f, "combiner must be able to determine the lock time"; e),
             Global(ref e) => write_err!(f, "error while combining the global maps"; e),
             Input(ref e) => write_err!(f, "error while combining the input maps"; e),
             Output(ref e) => write_err!(f, "error while combining the output maps"; e),
@@ -1345,6 +1401,8 @@ impl std::error::Error for CombineError {
         use CombineError::*;
 
         match *self {
+            InputCountMismatch { .. } | OutputCountMismatch { .. } | IdMismatch { .. } => None,
+            DetermineLockTime(ref e) => Some(e),
             Global(ref e) => Some(e),
             Input(ref e) => Some(e),
             Output(ref e) => Some(e),
@@ -1352,6 +1410,10 @@ impl std::error::Error for CombineError {
     }
 }
 
+impl From<DetermineLockTimeError> for CombineError {
+    fn from(e: DetermineLockTimeError) -> Self { Self::DetermineLockTime(e) }
+}
+
 impl From<global::CombineError> for CombineError {
     fn from(e: global::CombineError) -> Self { Self::Global(e) }
 }
-- 
2.43.0


From 7dcb434070a01981941e65cde3c29750c8ac70dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 10/30] fix: use the final sequence for inputs without one in
 the unsigned transaction

---
 src/v2/map/input.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index ce436c9..de3219d 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -306,8 +306,7 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
-- 
2.43.0


From a7fbbfe177b75aadae9b461b6435cfa8f827ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 11/30] fix: do not panic or clear the modifiable flags when no
 key signs an input

---
 src/v2/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index e59805b..01d548e 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -837,8 +837,10 @@ impl Psbt {
             used.push(pk);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // Nothing changes if we did not add any signature.
+        if let (Some(ty), false) = (sighash_ty, used.is_empty()) {
+            self.clear_tx_modifiable(ty as u8);
+        }
 
         Ok(used)
     }
-- 
2.43.0


From 81cb3c7f377cb6d1263495a52287e445ec125475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 12/30] fix: look up keys in sets of Xprivs by their own
 fingerprint (v2)

---
 src/v2/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 01d548e..29f5381 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1102,7 +1102,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
-- 
2.43.0


From bf4e110d957721a3f917839ec629f6600a3a5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 13/30] fix: look up keys in sets of Xprivs by their own
 fingerprint (v0)

---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index f7a9505..d386c8b 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -811,7 +811,7 @@ impl GetKey for $set<Xpriv> {
             KeyRequest::Pubkey(_) => Err(GetKeyError::NotSupported),
             KeyRequest::Bip32((fingerprint, path)) => {
                 for xpriv in self.iter() {
-                    if xpriv.parent_fingerprint == fingerprint {
+                    if xpriv.fingerprint(secp) == fingerprint {
                         let k = xpriv.derive_priv(secp, &path)?;
                         return Ok(Some(k.to_priv()));
                     }
-- 
2.43.0


From 37893ea48f0f88bd04c430299a6f80b966f895db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 14/30] fix: keep what defines the transaction when finalizing
 an input and set both final fields (v2)

---
 src/v2/map/input.rs | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index de3219d..489afaf 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -217,20 +217,31 @@ impl Input {
     ) -> Result<Input, FinalizeError> {
         debug_assert!(self.has_funding_utxo());
 
-        let mut ret = Input {
+        // TODO: This error should only trigger if there are bugs in this crate or miniscript.
+        // Is there an infallible way to do this?
+        if self.witness_utxo.is_some() && final_script_witness.is_empty() {
+            return Err(FinalizeError::EmptyWitness);
+        }
+
+        Ok(Input {
             previous_txid: self.previous_txid,
             spent_output_index: self.spent_output_index,
             non_witness_utxo: self.non_witness_utxo.clone(),
             witness_utxo: self.witness_utxo.clone(),
 
-            // Set below.
-            final_script_sig: None,
-            final_script_witness: None,
+            // These define the transaction, without them the signatures are not valid.
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+
+            final_script_sig: Some(final_script_sig),
+            final_script_witness: Some(final_script_witness),
+
+            // BIP-174: All other data except the UTXO and unknown fields should be cleared.
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
 
             // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
@@ -250,24 +261,7 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
-        };
-
-        // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
-        // Is there an infallible way to do this?
-        if self.witness_utxo.is_some() {
-            if final_script_witness.is_empty() {
-                return Err(FinalizeError::EmptyWitness);
-            }
-            ret.final_script_sig = Some(final_script_sig);
-            ret.final_script_witness = Some(final_script_witness);
-        } else {
-            // TODO: Any checks should do here?
-            ret.final_script_sig = Some(final_script_sig);
-        }
-
-        Ok(ret)
+        })
     }
 
     // TODO: Work out if this is in line with bip-370
-- 
2.43.0


From 08f06d43e144a7135a3e8aa9ce522992d05b1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 15/30] fix: check lock times against the transaction when
 finalizing (v2)

---
 src/v2/map/input.rs           | 13 ------------
 src/v2/miniscript/finalize.rs |  6 +++++-
 src/v2/miniscript/mod.rs      |  8 +++----
 src/v2/miniscript/satisfy.rs  | 40 +++++++++++++++++------------------
 4 files changed, 27 insertions(+), 40 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 489afaf..55b5455 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -264,19 +264,6 @@ impl Input {
         })
     }
 
-    // TODO: Work out if this is in line with bip-370
-    #[cfg(feature = "miniscript")]
-    pub(crate) fn lock_time(&self) -> absolute::LockTime {
-        match (self.min_height, self.min_time) {
-            // If we have both, bip says use height.
-            (Some(height), Some(_)) => height.into(),
-            (Some(height), None) => height.into(),
-            (None, Some(time)) => time.into(),
-            // TODO: Check this is correct.
-            (None, None) => absolute::LockTime::ZERO,
-        }
-    }
-
     pub(crate) fn has_lock_time(&self) -> bool {
         self.min_time.is_some() || self.min_height.is_some()
     }
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..6ded7e1 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -106,7 +106,11 @@ impl Finalizer {
         let (witness, script_sig) = {
             let spk =
                 &input.funding_utxo().expect("guaranteed by Finalizer invariant").script_pubkey;
-            let sat = InputSatisfier { input };
+            let sat = InputSatisfier {
+                input,
+                tx_version: self.0.global.tx_version,
+                lock_time: self.0.determine_lock_time().expect("guaranteed by Finalizer invariant"),
+            };
 
             if spk.is_p2tr() {
                 // Deal with taproot case separately, we cannot infer the full descriptor for taproot.
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 7935bd1..6cf786c 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -26,7 +26,7 @@ use core::fmt;
 use bitcoin::consensus::encode::VarInt;
 use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::sighash::Prevouts;
-use bitcoin::{Script, Sequence, Transaction, TxOut, Witness};
+use bitcoin::{Script, Transaction, TxOut, Witness};
 use miniscript::miniscript::satisfy::Placeholder;
 use miniscript::{interpreter, Interpreter, MiniscriptKey};
 
@@ -88,10 +88,8 @@ impl Psbt {
 
         let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
 
-        // TODO: Check that this is correct?
-        let cltv = input.lock_time();
-        // TODO: is this usage of MAX correct?
-        let csv = input.sequence.unwrap_or(Sequence::MAX);
+        let cltv = unsigned_tx.lock_time;
+        let csv = unsigned_tx.input[index].sequence;
 
         let interpreter = Interpreter::from_txdata(spk, script_sig, witness, csv, cltv)
             .map_err(|error| Constructor { input_index: index, error })?;
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index eb56c62..db0ad74 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -3,7 +3,7 @@
 use crate::bitcoin::hashes::{hash160, sha256d, Hash};
 use crate::bitcoin::key::XOnlyPublicKey;
 use crate::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
-use crate::bitcoin::{absolute, ecdsa, relative, ScriptBuf};
+use crate::bitcoin::{absolute, ecdsa, relative, transaction, ScriptBuf, TxIn};
 use crate::miniscript::{MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
@@ -16,6 +16,14 @@ use crate::v2::map::input::Input;
 /// [`Satisfier`]: crate::miniscript::Satisfier
 pub(crate) struct InputSatisfier<'a> {
     pub(crate) input: &'a Input,
+    /// The version of the transaction that contains `input`.
+    pub(crate) tx_version: transaction::Version,
+    /// The lock time of the transaction that contains `input`.
+    pub(crate) lock_time: absolute::LockTime,
+}
+
+impl InputSatisfier<'_> {
+    fn unsigned_tx_in(&self) -> TxIn { self.input.unsigned_tx_in() }
 }
 
 impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
@@ -67,32 +75,22 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
             .map(|(pk, sig)| (*pk, *sig))
     }
 
-    // TODO: Verify this is correct.
     fn check_after(&self, n: absolute::LockTime) -> bool {
-        use absolute::LockTime::*;
-
-        match n {
-            Blocks(height) =>
-                if let Some(lock_time) = self.input.min_height {
-                    return height <= lock_time;
-                },
-            Seconds(time) =>
-                if let Some(lock_time) = self.input.min_time {
-                    return time <= lock_time;
-                },
+        if !self.unsigned_tx_in().enables_lock_time() {
+            return false;
         }
-        false
+
+        <dyn Satisfier<Pk>>::check_after(&self.lock_time, n)
     }
 
-    // TODO: Verify this is correct.
     fn check_older(&self, n: relative::LockTime) -> bool {
-        match self.input.sequence {
-            Some(seq) => match relative::LockTime::from_sequence(seq) {
-                Err(_) => false,
-                Ok(lock_time) => n.is_implied_by(lock_time),
-            },
-            None => false,
+        let seq = self.unsigned_tx_in().sequence;
+
+        if self.tx_version < transaction::Version::TWO || !seq.is_relative_lock_time() {
+            return false;
         }
+
+        <dyn Satisfier<Pk>>::check_older(&seq, n)
     }
 
     fn lookup_hash160(&self, h: &Pk::Hash160) -> Option<Preimage32> {
-- 
2.43.0


From c65056642d20da7810992aa3d5c4261e08b5ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 16/30] fix: do not print debug output when finalizing (v2)

---
 src/v2/miniscript/finalize.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index 6ded7e1..d66b476 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -130,8 +130,6 @@ impl Finalizer {
         };
 
         let witness = Witness::from_slice(&witness);
-        println!("{:#?}", script_sig);
-        println!("{:#?}", witness);
         Ok((script_sig, witness))
     }
 
-- 
2.43.0


From bc09742d03f3b5b667019875a32444674624327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 17/30] fix: check redeem and witness scripts against the
 funding output in signer checks (v0)

---
 src/v0/mod.rs | 56 ++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..1a17ff6 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -60,6 +60,9 @@ impl Psbt {
             if input.witness_utxo.is_some() {
                 match self.output_type(i) {
                     Ok(OutputType::Bare) => return Err(SignerChecksError::NonWitnessSig),
+                    // Without the redeem script we do not know if this is nested segwit.
+                    Ok(OutputType::Sh) if input.redeem_script.is_some() =>
+                        return Err(SignerChecksError::NonWitnessSig),
                     Ok(_) => {}
                     Err(_) => {} // TODO: Is this correct?
                 }
@@ -71,41 +74,34 @@ impl Psbt {
                 }
             }
 
+            // The output being spent, from either of the UTXO fields.
+            let funding_utxo = match (&input.witness_utxo, &input.non_witness_utxo) {
+                (Some(utxo), _) => Some(utxo),
+                (None, Some(tx)) =>
+                    tx.output.get(unsigned_tx.input[i].previous_output.vout as usize),
+                (None, None) => None,
+            };
+
             if let Some(ref redeem_script) = input.redeem_script {
-                match input.witness_utxo {
-                    Some(ref tx_out) => {
-                        let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
-                        if tx_out.script_pubkey != script_pubkey {
-                            return Err(SignerChecksError::RedeemScriptMismatch);
-                        }
-                    }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                let utxo = funding_utxo.ok_or(SignerChecksError::MissingTxOut)?;
+                if utxo.script_pubkey != ScriptBuf::new_p2sh(&redeem_script.script_hash()) {
+                    return Err(SignerChecksError::RedeemScriptMismatch);
                 }
             }
 
             if let Some(ref witness_script) = input.witness_script {
-                match input.witness_utxo {
-                    Some(ref utxo) => {
-                        let script_pubkey = &utxo.script_pubkey;
-                        if script_pubkey.is_p2wsh() {
-                            if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
-                                != *script_pubkey
-                            {
-                                return Err(SignerChecksError::WitnessScriptMismatchWsh);
-                            }
-                        } else if script_pubkey.is_p2sh() {
-                            if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
-                                {
-                                    return Err(SignerChecksError::WitnessScriptMismatchShWsh);
-                                }
-                            }
-                        } else {
-                            // BIP does not specifically say there should not be a witness script here?
-                        }
-                    }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                let utxo = funding_utxo.ok_or(SignerChecksError::MissingTxOut)?;
+                let p2wsh = ScriptBuf::new_p2wsh(&witness_script.wscript_hash());
+                match input.redeem_script {
+                    // The scriptPubkey is for this redeem script (checked above).
+                    Some(ref redeem_script) =>
+                        if *redeem_script != p2wsh {
+                            return Err(SignerChecksError::WitnessScriptMismatchShWsh);
+                        },
+                    None =>
+                        if utxo.script_pubkey != p2wsh {
+                            return Err(SignerChecksError::WitnessScriptMismatchWsh);
+                        },
                 }
             }
 
-- 
2.43.0


From ee9478cabc6d1d3cc0b96bfc588734fa9b8e5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:03 +0000
Subject: [PATCH 18/30] fix: only silent payment outputs can be without a
 script pubkey

---
 src/v2/map/output.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index 6b4ea58..461c085 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -119,12 +119,12 @@ impl Output {
         }
 
         rv.amount = amount.ok_or(DecodeError::MissingValue)?;
-        // BIP-375 allows outputs to be missing scriptPubkey
-        #[cfg(not(feature = "silent-payments"))]
-        if script_pubkey.is_none() {
-            return Err(DecodeError::MissingScriptPubkey);
+        // BIP-375 allows silent payment outputs to be missing scriptPubkey
+        #[cfg(feature = "silent-payments")]
+        if rv.sp_v0_info.is_some() {
+            script_pubkey = script_pubkey.or(Some(ScriptBuf::new()));
         }
-        rv.script_pubkey = script_pubkey.unwrap_or_default();
+        rv.script_pubkey = script_pubkey.ok_or(DecodeError::MissingScriptPubkey)?;
 
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
-- 
2.43.0


From 0fed0d717733ccd5a433269d942f29134be60563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:03 +0000
Subject: [PATCH 19/30] fix: do not invent an empty script when encoding a
 silent payment output

---
 src/v2/map/output.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index 461c085..fcd0b2a 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -286,10 +286,18 @@ impl Map for Output {
             value: self.amount.serialize(),
         });
 
-        rv.push(raw::Pair {
-            key: raw::Key { type_value: PSBT_OUT_SCRIPT, key: vec![] },
-            value: self.script_pubkey.serialize(),
-        });
+        // BIP-375: A silent payment output has no script until it has been computed.
+        #[cfg(feature = "silent-payments")]
+        let has_script = !(self.script_pubkey.is_empty() && self.sp_v0_info.is_some());
+        #[cfg(not(feature = "silent-payments"))]
+        let has_script = true;
+
+        if has_script {
+            rv.push(raw::Pair {
+                key: raw::Key { type_value: PSBT_OUT_SCRIPT, key: vec![] },
+                value: self.script_pubkey.serialize(),
+            });
+        }
 
         v2_impl_psbt_get_pair! {
             rv.push(self.redeem_script, PSBT_OUT_REDEEM_SCRIPT)
-- 
2.43.0


From f879c1b3536f0eeb61c910586cb35d102ba64021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 20/30] fix: read control blocks from self-describing serde
 formats

Parity only deserializes from formats that hand out a u8, so a PSBT with
taproot leaf scripts could be written as JSON but not read back.
---
 src/serde_utils.rs          | 55 +++++++++++++++++++++++++++++++++++++
 src/v0/bitcoin/map/input.rs |  2 +-
 src/v2/map/input.rs         |  2 +-
 3 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index e92dd82..64826de 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -159,6 +159,61 @@ pub mod btreemap_as_seq {
     }
 }
 
+pub mod tap_scripts {
+    //! Module for serialization of a map from control blocks to leaf scripts.
+    //!
+    //! Same form as [`super::btreemap_as_seq`]. The `Deserialize` impl of [`secp256k1::Parity`]
+    //! only takes values from formats that hand out a `u8`, which excludes self-describing ones
+    //! like JSON, so here the parity is deserialized as a number and then converted.
+    #![allow(missing_docs)]
+
+    use bitcoin::key::XOnlyPublicKey;
+    use bitcoin::secp256k1;
+    use bitcoin::taproot::{ControlBlock, LeafVersion, TaprootMerkleBranch};
+    use bitcoin::ScriptBuf;
+
+    use crate::prelude::*;
+    use crate::serde;
+    pub use super::btreemap_as_seq::serialize;
+
+    /// Mirrors the fields of [`ControlBlock`].
+    #[derive(Deserialize)]
+    #[serde(rename = "ControlBlock")]
+    struct Fields {
+        leaf_version: LeafVersion,
+        output_key_parity: u8,
+        internal_key: XOnlyPublicKey,
+        merkle_branch: TaprootMerkleBranch,
+    }
+
+    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Deserialize)]
+    #[serde(try_from = "Fields")]
+    struct Key(ControlBlock);
+
+    impl TryFrom<Fields> for Key {
+        type Error = secp256k1::InvalidParityValue;
+
+        fn try_from(f: Fields) -> Result<Self, Self::Error> {
+            Ok(Key(ControlBlock {
+                leaf_version: f.leaf_version,
+                output_key_parity: secp256k1::Parity::from_u8(f.output_key_parity)?,
+                internal_key: f.internal_key,
+                merkle_branch: f.merkle_branch,
+            }))
+        }
+    }
+
+    pub fn deserialize<'de, D>(
+        d: D,
+    ) -> Result<BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        let map: BTreeMap<Key, (ScriptBuf, LeafVersion)> = super::btreemap_as_seq::deserialize(d)?;
+        Ok(map.into_iter().map(|(key, leaf)| (key.0, leaf)).collect())
+    }
+}
+
 pub mod btreemap_as_seq_byte_values {
     //! Module for serialization of BTreeMaps as lists of sequences because
     //! serde_json will not serialize hashmaps with non-string keys be default.
diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..a0f650e 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -121,7 +121,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::tap_scripts"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 55b5455..f500447 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -111,7 +111,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::tap_scripts"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
-- 
2.43.0


From 796b762e7e3e9dfdc57f5c2622ed15c52d5fd8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 21/30] fix: read preimages from serde formats that do not hand
 out borrowed text

Deserializing from a serde_json::Value or a reader failed for every PSBT
with a hash preimage.
---
 src/serde_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index 64826de..9a96c7b 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -72,8 +72,8 @@ pub mod btreemap_byte_values {
                 mut a: A,
             ) -> Result<Self::Value, A::Error> {
                 let mut ret = BTreeMap::new();
-                while let Some((key, value)) = a.next_entry()? {
-                    ret.insert(key, FromHex::from_hex(value).map_err(serde::de::Error::custom)?);
+                while let Some((key, value)) = a.next_entry::<T, String>()? {
+                    ret.insert(key, FromHex::from_hex(&value).map_err(serde::de::Error::custom)?);
                 }
                 Ok(ret)
             }
-- 
2.43.0


From 6fe5bfcce6d38d447a64df5bee924433be7d18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:54 +0000
Subject: [PATCH 22/30] fix: read taproot trees from binary serde formats

TapTree serializes the depth of a leaf as usize but deserializes a u8, so
formats that are not self-describing could not read a PSBT with a tree.
---
 src/serde_utils.rs           | 68 ++++++++++++++++++++++++++++++++++++
 src/v0/bitcoin/map/output.rs |  1 +
 src/v2/map/output.rs         |  1 +
 3 files changed, 70 insertions(+)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index 9a96c7b..40a924d 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -214,6 +214,74 @@ pub mod tap_scripts {
     }
 }
 
+pub mod tap_tree {
+    //! Module for serialization of an optional taproot tree.
+    //!
+    //! Same form as `Option<TapTree>`, which serializes the depth of a leaf as a `usize` but
+    //! deserializes a `u8`. That does not work for formats that are not self-describing.
+    #![allow(missing_docs)]
+
+    use bitcoin::taproot::{TapLeaf, TapTree, TaprootBuilder};
+
+    use crate::serde;
+
+    pub fn serialize<S>(tree: &Option<TapTree>, s: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serde::Serialize::serialize(tree, s)
+    }
+
+    struct Tree(TapTree);
+
+    impl<'de> serde::Deserialize<'de> for Tree {
+        fn deserialize<D>(d: D) -> Result<Self, D::Error>
+        where
+            D: serde::Deserializer<'de>,
+        {
+            use serde::de::Error;
+
+            struct Visitor;
+
+            impl<'de> serde::de::Visitor<'de> for Visitor {
+                type Value = Tree;
+
+                fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
+                    write!(f, "a taproot tree in depth-first order")
+                }
+
+                fn visit_seq<A: serde::de::SeqAccess<'de>>(
+                    self,
+                    mut a: A,
+                ) -> Result<Self::Value, A::Error> {
+                    let mut builder = TaprootBuilder::new();
+                    while let Some(depth) = a.next_element::<usize>()? {
+                        let depth = u8::try_from(depth).map_err(A::Error::custom)?;
+                        builder = match a.next_element()? {
+                            Some(TapLeaf::Script(script, ver)) =>
+                                builder.add_leaf_with_ver(depth, script, ver),
+                            Some(TapLeaf::Hidden(hash)) => builder.add_hidden_node(depth, hash),
+                            None => return Err(A::Error::custom("missing leaf")),
+                        }
+                        .map_err(A::Error::custom)?;
+                    }
+                    TapTree::try_from(builder).map(Tree).map_err(A::Error::custom)
+                }
+            }
+
+            d.deserialize_seq(Visitor)
+        }
+    }
+
+    pub fn deserialize<'de, D>(d: D) -> Result<Option<TapTree>, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        let tree: Option<Tree> = serde::Deserialize::deserialize(d)?;
+        Ok(tree.map(|tree| tree.0))
+    }
+}
+
 pub mod btreemap_as_seq_byte_values {
     //! Module for serialization of BTreeMaps as lists of sequences because
     //! serde_json will not serialize hashmaps with non-string keys be default.
diff --git a/src/v0/bitcoin/map/output.rs b/src/v0/bitcoin/map/output.rs
index 97997d8..cae5e80 100644
--- a/src/v0/bitcoin/map/output.rs
+++ b/src/v0/bitcoin/map/output.rs
@@ -46,6 +46,7 @@ pub struct Output {
     /// The internal pubkey.
     pub tap_internal_key: Option<XOnlyPublicKey>,
     /// Taproot Output tree.
+    #[cfg_attr(feature = "serde", serde(default, with = "crate::serde_utils::tap_tree"))]
     pub tap_tree: Option<TapTree>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index fcd0b2a..c10cecf 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -44,6 +44,7 @@ pub struct Output {
     /// The internal pubkey.
     pub tap_internal_key: Option<XOnlyPublicKey>,
     /// Taproot Output tree.
+    #[cfg_attr(feature = "serde", serde(default, with = "crate::serde_utils::tap_tree"))]
     pub tap_tree: Option<TapTree>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
-- 
2.43.0


From c87b3a1215293f7518f2e78d7ad12c48e2a00b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 23/30] fix: v0 spend_utxo returns an error for an out of range
 output index

---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index d386c8b..88a61d6 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -623,7 +623,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
-- 
2.43.0


From 0c2b4f51e727238a4262aedd6e3e7436464c9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 24/30] fix: no panic finalizing a taproot pkh leaf that has a
 signature

---
 src/v0/miniscript/mod.rs     | 15 +++------------
 src/v2/miniscript/satisfy.rs | 16 +++-------------
 2 files changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 5ee82ad..d8bb14e 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -284,18 +284,9 @@ impl<'psbt, Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for PsbtInputSatisfie
         Some(&self.psbt.inputs[self.index].tap_scripts)
     }
 
-    fn lookup_raw_pkh_tap_leaf_script_sig(
-        &self,
-        pkh: &(hash160::Hash, TapLeafHash),
-    ) -> Option<(bitcoin::secp256k1::XOnlyPublicKey, bitcoin::taproot::Signature)> {
-        self.psbt.inputs[self.index]
-            .tap_script_sigs
-            .iter()
-            .find(|&((pubkey, lh), _sig)| {
-                pubkey.to_pubkeyhash(SigType::Schnorr) == pkh.0 && *lh == pkh.1
-            })
-            .map(|((x_only_pk, _leaf_hash), sig)| (*x_only_pk, *sig))
-    }
+    // `lookup_raw_pkh_tap_leaf_script_sig` is deliberately not implemented. There is no lookup that
+    // `miniscript` uses to complete the witness with the matching x-only public key, it panics if
+    // it is told that the signature exists.
 
     fn lookup_ecdsa_sig(&self, pk: &Pk) -> Option<bitcoin::ecdsa::Signature> {
         self.psbt.inputs[self.index]
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index db0ad74..aa99371 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -1,7 +1,6 @@
 // SPDX-License-Identifier: CC0-1.0
 
 use crate::bitcoin::hashes::{hash160, sha256d, Hash};
-use crate::bitcoin::key::XOnlyPublicKey;
 use crate::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
 use crate::bitcoin::{absolute, ecdsa, relative, transaction, ScriptBuf, TxIn};
 use crate::miniscript::{MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey};
@@ -47,18 +46,9 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
         Some(&self.input.tap_scripts)
     }
 
-    fn lookup_raw_pkh_tap_leaf_script_sig(
-        &self,
-        pkh: &(hash160::Hash, TapLeafHash),
-    ) -> Option<(XOnlyPublicKey, taproot::Signature)> {
-        self.input
-            .tap_script_sigs
-            .iter()
-            .find(|&((pubkey, lh), _sig)| {
-                pubkey.to_pubkeyhash(SigType::Schnorr) == pkh.0 && *lh == pkh.1
-            })
-            .map(|((x_only_pk, _leaf_hash), sig)| (*x_only_pk, *sig))
-    }
+    // `lookup_raw_pkh_tap_leaf_script_sig` is deliberately not implemented. There is no lookup that
+    // `miniscript` uses to complete the witness with the matching x-only public key, it panics if
+    // it is told that the signature exists.
 
     fn lookup_ecdsa_sig(&self, pk: &Pk) -> Option<ecdsa::Signature> {
         self.input.partial_sigs.get(&pk.to_public_key()).copied()
-- 
2.43.0


From b67c9e145609b55667387ccf535bd08b2969f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:36 +0000
Subject: [PATCH 25/30] fix: finalizer accepts taproot sighash type on inputs
 without ECDSA signatures

---
 src/v2/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 29f5381..7dc73ef 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1005,6 +1005,11 @@ impl Psbt {
         use PartialSigsSighashTypeError::*;
 
         for (input_index, input) in self.inputs.iter().enumerate() {
+            // The sighash type of a taproot input is not necessarily a valid ECDSA one.
+            if input.partial_sigs.is_empty() {
+                continue;
+            }
+
             let target_ecdsa_sighash_ty = match input.sighash_type {
                 Some(psbt_hash_ty) => psbt_hash_ty
                     .ecdsa_hash_ty()
-- 
2.43.0


From bb5e7a9a77ef21c5a47c61e2ee10c68f9895974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 26/30] fix: v0 extract_tx returns an error for an out of range
 output index

---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 88a61d6..741ef4c 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -193,7 +193,7 @@ impl Psbt {
     ) -> Result<Transaction, ExtractTxError> {
         let fee = match self.fee() {
             Ok(fee) => fee,
-            Err(Error::MissingUtxo) =>
+            Err(Error::MissingUtxo) | Err(Error::PsbtUtxoOutOfbounds) =>
                 return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
             Err(Error::NegativeFee) => return Err(ExtractTxError::SendingTooMuch { psbt: self }),
             Err(Error::FeeOverflow) =>
-- 
2.43.0


From f986f29a5100738ccf556f2c543fead3b0a7dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 27/30] fix: v0 miniscript returns an error for an out of range
 output index

Finalizing, extracting and interpreting a PSBT whose non-witness UTXO has
fewer outputs than the input claims to spend panicked.
---
 src/v0/miniscript/finalizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..4e33e93 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -116,7 +116,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From 8e82c9acc4d44790113e33cad7e86979dd91ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 28/30] fix: v2 interpreter_check returns an error for a
 missing funding UTXO

A finalized PSBT does not necessarily have its funding UTXOs.
---
 src/v2/miniscript/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 6cf786c..5c1974d 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -30,7 +30,7 @@ use bitcoin::{Script, Transaction, TxOut, Witness};
 use miniscript::miniscript::satisfy::Placeholder;
 use miniscript::{interpreter, Interpreter, MiniscriptKey};
 
-use crate::error::write_err;
+use crate::error::{write_err, FundingUtxoError};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
 use crate::v2::{DetermineLockTimeError, Psbt};
@@ -53,10 +53,7 @@ impl Psbt {
 
         let unsigned_tx = self.unsigned_tx()?; // Used to verify signatures.
 
-        let utxos: Vec<&TxOut> = self
-            .iter_funding_utxos()
-            .map(|res| res.expect("finalized PSBT has funding utxos"))
-            .collect();
+        let utxos: Vec<&TxOut> = self.iter_funding_utxos().collect::<Result<_, _>>()?;
         let utxos = &Prevouts::All(&utxos);
         for (index, input) in self.inputs.iter().enumerate() {
             self.interpreter_check_input(
@@ -145,6 +142,8 @@ pub(crate) fn varint_len(n: usize) -> usize { VarInt(n as u64).size() }
 pub enum InterpreterCheckError {
     /// Failed to determine lock time for unsigned transaction.
     DetermineLockTime(DetermineLockTimeError),
+    /// An input is missing its funding UTXO.
+    FundingUtxo(FundingUtxoError),
     /// Interpreter check failed for an input.
     InterpreterCheckInput(InterpreterCheckInputError),
 }
@@ -155,6 +154,7 @@ impl fmt::Display for InterpreterCheckError {
 
         match *self {
             DetermineLockTime(ref e) => write_err!(f, "interpreter check determine locktime"; e),
+            FundingUtxo(ref e) => write_err!(f, "interpreter check funding utxo"; e),
             InterpreterCheckInput(ref e) => write_err!(f, "interpreter check failed for input"; e),
         }
     }
@@ -167,6 +167,7 @@ impl std::error::Error for InterpreterCheckError {
 
         match *self {
             DetermineLockTime(ref e) => Some(e),
+            FundingUtxo(ref e) => Some(e),
             InterpreterCheckInput(ref e) => Some(e),
         }
     }
@@ -176,6 +177,10 @@ impl From<DetermineLockTimeError> for InterpreterCheckError {
     fn from(e: DetermineLockTimeError) -> Self { Self::DetermineLockTime(e) }
 }
 
+impl From<FundingUtxoError> for InterpreterCheckError {
+    fn from(e: FundingUtxoError) -> Self { Self::FundingUtxo(e) }
+}
+
 impl From<InterpreterCheckInputError> for InterpreterCheckError {
     fn from(e: InterpreterCheckInputError) -> Self { Self::InterpreterCheckInput(e) }
 }
-- 
2.43.0


From 74614bd34b471bda8b6ef766958124904a7bedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 29/30] fix: finalizer does not panic on uncompressed keys in
 segwit scripts

miniscript assumes a compressed key when it completes a raw pkh fragment of
a segwit script, in debug builds it asserts so.
---
 src/v0/miniscript/mod.rs     | 6 +++++-
 src/v2/miniscript/satisfy.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index d8bb14e..8ad8c83 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -299,9 +299,13 @@ impl<'psbt, Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for PsbtInputSatisfie
         &self,
         pkh: &hash160::Hash,
     ) -> Option<(bitcoin::PublicKey, bitcoin::ecdsa::Signature)> {
-        self.psbt.inputs[self.index]
+        let input = &self.psbt.inputs[self.index];
+        // Segwit scripts only have compressed keys, `miniscript` panics if given another.
+        let is_segwit = input.witness_script.is_some();
+        input
             .partial_sigs
             .iter()
+            .filter(|&(pubkey, _sig)| pubkey.compressed || !is_segwit)
             .find(|&(pubkey, _sig)| pubkey.to_pubkeyhash(SigType::Ecdsa) == *pkh)
             .map(|(pk, sig)| (*pk, *sig))
     }
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index aa99371..deeeaba 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -58,9 +58,12 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
         &self,
         pkh: &hash160::Hash,
     ) -> Option<(bitcoin::PublicKey, ecdsa::Signature)> {
+        // Segwit scripts only have compressed keys, `miniscript` panics if given another.
+        let is_segwit = self.input.witness_script.is_some();
         self.input
             .partial_sigs
             .iter()
+            .filter(|&(pubkey, _sig)| pubkey.compressed || !is_segwit)
             .find(|&(pubkey, _sig)| pubkey.to_pubkeyhash(SigType::Ecdsa) == *pkh)
             .map(|(pk, sig)| (*pk, *sig))
     }
-- 
2.43.0


From ac918e63b78197bafb6ac3c9997179ff08826532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 30/30] fix: v2 interpreter_check enforces that lock times are
 enabled

rust-miniscript's interpreter compares the lock times but neither looks at
the sequence for CLTV nor at the transaction version for CSV, hence an input
with an invalid preimage could be finalized by a lock time that consensus
does not accept.
---
 src/v2/miniscript/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 5c1974d..e805eed 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -26,7 +26,8 @@ use core::fmt;
 use bitcoin::consensus::encode::VarInt;
 use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::sighash::Prevouts;
-use bitcoin::{Script, Transaction, TxOut, Witness};
+use bitcoin::{transaction, Script, Transaction, TxOut, Witness};
+use miniscript::interpreter::SatisfiedConstraint;
 use miniscript::miniscript::satisfy::Placeholder;
 use miniscript::{interpreter, Interpreter, MiniscriptKey};
 
@@ -91,11 +92,22 @@ impl Psbt {
         let interpreter = Interpreter::from_txdata(spk, script_sig, witness, csv, cltv)
             .map_err(|error| Constructor { input_index: index, error })?;
 
-        let iter = interpreter.iter(secp, unsigned_tx, index, utxos);
         // TODO: Ok to just return the first satisfaction error?
-        if let Some(error) = iter.filter_map(Result::err).next() {
+        for constraint in interpreter.iter(secp, unsigned_tx, index, utxos) {
+            // The interpreter compares the lock times but does not check that they are enforced:
+            // CLTV fails for a final sequence and CSV for a transaction version less than 2.
+            let error = match constraint {
+                Ok(SatisfiedConstraint::AbsoluteTimelock { n })
+                    if !csv.enables_absolute_lock_time() =>
+                    interpreter::Error::AbsoluteLockTimeNotMet(n),
+                Ok(SatisfiedConstraint::RelativeTimelock { n })
+                    if unsigned_tx.version < transaction::Version::TWO =>
+                    interpreter::Error::RelativeLockTimeNotMet(n),
+                Ok(_) => continue,
+                Err(error) => error,
+            };
             return Err(Satisfaction { input_index: index, error });
-        };
+        }
 
         Ok(())
     }
-- 
2.43.0

