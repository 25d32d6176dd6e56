From 708bcf828afd6b479966e37aab94bedb000c18ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 01/30] fix: accept a commit certificate whatever order its
 signatures are in

verify_signatures consumed one shared iterator over the validator set, so a
quorum of valid signatures was rejected unless they came in the order of the
validator set.
---
 src/core/util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index 1e1b937..b34d795 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -5,7 +5,7 @@ use crate::consensus::validator::StoredValidatorSets;
 use crate::core::error::HubError;
 use crate::core::types::{CommitsExt, Vote, FARCASTER_EPOCH};
 use crate::proto::{self};
-use itertools::Itertools;
+use std::collections::HashSet;
 use tracing::error;
 
 #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
@@ -104,10 +104,12 @@ pub fn verify_signatures(commits: &proto::Commits, validator_sets: &StoredValida
 
     let validator_set = validator_sets.get_validator_set(certificate.height.as_u64());
 
+    // Each validator may sign once, in any order
     let mut expected_pubkeys = validator_set
         .validators
         .iter()
-        .map(|validator| validator.public_key.to_bytes());
+        .map(|validator| validator.public_key.to_bytes())
+        .collect::<HashSet<_>>();
 
     if !ThresholdParams::default().quorum.is_met(
         certificate.aggregated_signature.signatures.len() as u64,
@@ -119,7 +121,7 @@ pub fn verify_signatures(commits: &proto::Commits, validator_sets: &StoredValida
 
     for signature in certificate.aggregated_signature.signatures {
         let address_bytes = &signature.address.0;
-        if !expected_pubkeys.contains(address_bytes) {
+        if !expected_pubkeys.remove(address_bytes) {
             error!(%certificate.height, "Block contained signatures from unexpected signers");
             return false;
         }
-- 
2.43.0


From c397bf619581e66bb342e2e894603bdf7bfa7533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 02/30] fix: reject a malformed commit certificate instead of
 panicking

A certificate received by gossip or sync with no height, no value or a signer
that is not 32 bytes long crashed the receiving task.
---
 src/consensus/malachite/snapchain_codec.rs |  5 +++++
 src/core/types.rs                          | 12 ++++++++++++
 src/core/util.rs                           |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/src/consensus/malachite/snapchain_codec.rs b/src/consensus/malachite/snapchain_codec.rs
index 2b0472d..e4b6b20 100644
--- a/src/consensus/malachite/snapchain_codec.rs
+++ b/src/consensus/malachite/snapchain_codec.rs
@@ -229,6 +229,11 @@ impl Codec<sync::Response<SnapchainValidatorContext>> for SnapchainCodec {
                         "Missing commits in ValueResponse".to_string(),
                     )
                 })?;
+                if !commits.is_well_formed() {
+                    return Err(SnapchainCodecError::InvalidField(
+                        "Malformed commits in ValueResponse".to_string(),
+                    ));
+                }
                 let commit_certificate = commits.to_commit_certificate();
                 Ok(sync::Response::ValueResponse(sync::ValueResponse {
                     height: value.height.ok_or_else(|| {
diff --git a/src/core/types.rs b/src/core/types.rs
index 0291bbd..cd44a57 100644
--- a/src/core/types.rs
+++ b/src/core/types.rs
@@ -695,6 +695,9 @@ impl informalsystems_malachitebft_core_types::Validator<SnapchainValidatorContex
 
 // Extension trait for Commits that depends on main crate types
 pub trait CommitsExt {
+    /// Whether every field [to_commit_certificate] relies on is there with the right length. Must be
+    /// checked before converting a certificate received from the network.
+    fn is_well_formed(&self) -> bool;
     fn to_commit_certificate(
         &self,
     ) -> informalsystems_malachitebft_core_types::CommitCertificate<SnapchainValidatorContext>;
@@ -706,6 +709,15 @@ pub trait CommitsExt {
 }
 
 impl CommitsExt for Commits {
+    fn is_well_formed(&self) -> bool {
+        self.height.is_some()
+            && self.value.is_some()
+            && self
+                .signatures
+                .iter()
+                .all(|commit| commit.signer.len() == std::mem::size_of::<Address>())
+    }
+
     fn to_commit_certificate(
         &self,
     ) -> informalsystems_malachitebft_core_types::CommitCertificate<SnapchainValidatorContext> {
diff --git a/src/core/util.rs b/src/core/util.rs
index b34d795..89f5ae5 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -100,6 +100,10 @@ pub fn calculate_message_hash(data_bytes: &[u8]) -> Vec<u8> {
 }
 
 pub fn verify_signatures(commits: &proto::Commits, validator_sets: &StoredValidatorSets) -> bool {
+    if !commits.is_well_formed() {
+        error!("Block contained a malformed certificate");
+        return false;
+    }
     let certificate = commits.to_commit_certificate();
 
     let validator_set = validator_sets.get_validator_set(certificate.height.as_u64());
-- 
2.43.0


From cfd9e8f413bfd8d4048b60063a04c5a88606f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 03/30] fix: refuse malformed consensus messages instead of
 panicking

Votes, proposals and full proposals arrive from gossip and sync; a missing
height or value, an unknown vote type, a negative round or an address that is
not 32 bytes long crashed the receiving task.
---
 src/consensus/malachite/snapchain_codec.rs | 85 +++++++++++++++++++---
 1 file changed, 76 insertions(+), 9 deletions(-)

diff --git a/src/consensus/malachite/snapchain_codec.rs b/src/consensus/malachite/snapchain_codec.rs
index e4b6b20..e8a0cc1 100644
--- a/src/consensus/malachite/snapchain_codec.rs
+++ b/src/consensus/malachite/snapchain_codec.rs
@@ -1,7 +1,11 @@
-use crate::core::types::{CommitsExt, Proposal, Signature, SnapchainValidatorContext, Vote};
+use crate::core::types::{
+    Address, CommitsExt, Proposal, Signature, SnapchainValidatorContext, Vote,
+};
 use crate::proto::sync_request::SyncRequest;
 use crate::proto::{self};
-use crate::proto::{consensus_message, ConsensusMessage, FullProposal, StatusMessage};
+use crate::proto::{
+    consensus_message, full_proposal, ConsensusMessage, FullProposal, StatusMessage,
+};
 use bytes::Bytes;
 use informalsystems_malachitebft_codec::Codec;
 use informalsystems_malachitebft_core_consensus::SignedConsensusMsg;
@@ -28,6 +32,65 @@ pub enum SnapchainCodecError {
     InvalidField(String),
 }
 
+fn require(condition: bool, field: &str) -> Result<(), SnapchainCodecError> {
+    if condition {
+        Ok(())
+    } else {
+        Err(SnapchainCodecError::InvalidField(field.to_string()))
+    }
+}
+
+// Bytes received from the network may lack any field. What the rest of consensus relies on is checked
+// here, before converting to a type that can't express the absence.
+fn is_address(bytes: &[u8]) -> bool {
+    bytes.len() == std::mem::size_of::<Address>()
+}
+
+fn decode_vote(vote: proto::Vote) -> Result<Vote, SnapchainCodecError> {
+    require(vote.height.is_some(), "Missing height in vote")?;
+    require(is_address(&vote.voter), "Invalid voter in vote")?;
+    require(
+        proto::VoteType::try_from(vote.r#type).is_ok(),
+        "Invalid vote type",
+    )?;
+    Ok(Vote::from_proto(vote))
+}
+
+fn decode_proposal(proposal: proto::Proposal) -> Result<Proposal, SnapchainCodecError> {
+    require(proposal.height.is_some(), "Missing height in proposal")?;
+    require(proposal.value.is_some(), "Missing value in proposal")?;
+    require(
+        is_address(&proposal.proposer),
+        "Invalid proposer in proposal",
+    )?;
+    Ok(Proposal::from_proto(proposal))
+}
+
+fn validate_full_proposal(proposal: &FullProposal) -> Result<(), SnapchainCodecError> {
+    require(proposal.height.is_some(), "Missing height in FullProposal")?;
+    require(
+        u32::try_from(proposal.round).is_ok(),
+        "Invalid round in FullProposal",
+    )?;
+    require(
+        is_address(&proposal.proposer),
+        "Invalid proposer in FullProposal",
+    )?;
+    let value_height = match &proposal.proposed_value {
+        Some(full_proposal::ProposedValue::Block(block)) => {
+            block.header.as_ref().and_then(|header| header.height)
+        }
+        Some(full_proposal::ProposedValue::Shard(chunk)) => {
+            chunk.header.as_ref().and_then(|header| header.height)
+        }
+        None => None,
+    };
+    require(
+        value_height.is_some(),
+        "Missing value, or height of the value, in FullProposal",
+    )
+}
+
 impl Codec<SignedConsensusMsg<SnapchainValidatorContext>> for SnapchainCodec {
     type Error = SnapchainCodecError;
 
@@ -39,13 +102,13 @@ impl Codec<SignedConsensusMsg<SnapchainValidatorContext>> for SnapchainCodec {
         match message.consensus_message {
             Some(consensus_message::ConsensusMessage::Vote(vote)) => {
                 Ok(SignedConsensusMsg::Vote(SignedVote {
-                    message: Vote::from_proto(vote),
+                    message: decode_vote(vote)?,
                     signature: Signature(message.signature),
                 }))
             }
             Some(consensus_message::ConsensusMessage::Proposal(proposal)) => {
                 Ok(SignedConsensusMsg::Proposal(SignedProposal {
-                    message: Proposal::from_proto(proposal),
+                    message: decode_proposal(proposal)?,
                     signature: Signature(message.signature),
                 }))
             }
@@ -88,7 +151,9 @@ impl Codec<FullProposal> for SnapchainCodec {
     type Error = SnapchainCodecError;
 
     fn decode(&self, bytes: Bytes) -> Result<FullProposal, Self::Error> {
-        FullProposal::decode(bytes).map_err(SnapchainCodecError::Decode)
+        let proposal = FullProposal::decode(bytes)?;
+        validate_full_proposal(&proposal)?;
+        Ok(proposal)
     }
 
     fn encode(&self, msg: &FullProposal) -> Result<Bytes, Self::Error> {
@@ -252,11 +317,13 @@ impl Codec<sync::Response<SnapchainValidatorContext>> for SnapchainCodec {
                     .votes
                     .into_iter()
                     .zip(vote_set.signatures)
-                    .map(|(vote, signature)| SignedVote {
-                        message: Vote::from_proto(vote),
-                        signature: Signature(signature),
+                    .map(|(vote, signature)| {
+                        Ok(SignedVote {
+                            message: decode_vote(vote)?,
+                            signature: Signature(signature),
+                        })
                     })
-                    .collect();
+                    .collect::<Result<Vec<_>, SnapchainCodecError>>()?;
                 Ok(sync::Response::VoteSetResponse(sync::VoteSetResponse {
                     height: vote_set.height.ok_or_else(|| {
                         SnapchainCodecError::InvalidField(
-- 
2.43.0


From 88d1d4be2948b209c2f116e571fa0e15fca988d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 04/30] fix: ignore a gossiped proposal without a height

height() panics when there is none, and it was called before the check.
---
 src/network/gossip.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/network/gossip.rs b/src/network/gossip.rs
index c0f6f0d..2ea0505 100644
--- a/src/network/gossip.rs
+++ b/src/network/gossip.rs
@@ -1174,6 +1174,11 @@ impl SnapchainGossip {
                 }
 
                 Some(proto::gossip_message::GossipMessage::FullProposal(full_proposal)) => {
+                    let shard_result = full_proposal.shard_id();
+                    if shard_result.is_err() {
+                        warn!("Failed to get shard id from consensus message");
+                        return None;
+                    }
                     let height = full_proposal.height();
                     debug!(
                         "Received block with height {} from peer: {}",
@@ -1186,11 +1191,6 @@ impl SnapchainGossip {
                         malachite_peer_id,
                         bytes,
                     );
-                    let shard_result = full_proposal.shard_id();
-                    if shard_result.is_err() {
-                        warn!("Failed to get shard id from consensus message");
-                        return None;
-                    }
                     let shard = MalachiteEventShard::Shard(shard_result.unwrap());
                     Some(SystemMessage::MalachiteNetwork(shard, event))
                 }
-- 
2.43.0


From e047872c75699a9994512eda595dacf00165ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 05/30] fix: drop malformed decided values instead of panicking

A read node takes decided values from gossip. One with no value, header, height
or certificate, for an unknown shard, or of the wrong kind for its shard, crashed
it.
---
 src/consensus/read_validator.rs | 35 +++++++++++++++++++--------------
 src/node/snapchain_read_node.rs | 30 ++++++++++++++++------------
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/consensus/read_validator.rs b/src/consensus/read_validator.rs
index d9aa5c7..65470b1 100644
--- a/src/consensus/read_validator.rs
+++ b/src/consensus/read_validator.rs
@@ -94,28 +94,30 @@ impl ReadValidator {
         num_blocks_processed
     }
 
-    fn get_decided_value_height(value: &proto::DecidedValue) -> Height {
-        match value.value.as_ref().unwrap() {
-            proto::decided_value::Value::Shard(shard_chunk) => {
-                shard_chunk.header.as_ref().unwrap().height.unwrap()
+    // [None] if the value is not of the kind this validator's engine commits, or it has no height
+    fn get_decided_value_height(&self, value: &proto::DecidedValue) -> Option<Height> {
+        match (&self.engine, value.value.as_ref()?) {
+            (Engine::ShardEngine(_), proto::decided_value::Value::Shard(shard_chunk)) => {
+                shard_chunk.header.as_ref()?.height
             }
-
-            proto::decided_value::Value::Block(block) => {
-                block.header.as_ref().unwrap().height.unwrap()
+            (Engine::BlockEngine(_), proto::decided_value::Value::Block(block)) => {
+                block.header.as_ref()?.height
             }
+            _ => None,
         }
     }
 
     fn verify_signatures(&self, value: &proto::DecidedValue) -> bool {
-        let commits = match value.value.as_ref().unwrap() {
-            proto::decided_value::Value::Shard(shard_chunk) => {
-                shard_chunk.commits.as_ref().unwrap()
-            }
-
-            proto::decided_value::Value::Block(block) => block.commits.as_ref().unwrap(),
+        let commits = match value.value.as_ref() {
+            Some(proto::decided_value::Value::Shard(shard_chunk)) => shard_chunk.commits.as_ref(),
+            Some(proto::decided_value::Value::Block(block)) => block.commits.as_ref(),
+            None => None,
         };
 
-        verify_signatures(&commits, &self.validator_sets)
+        match commits {
+            Some(commits) => verify_signatures(commits, &self.validator_sets),
+            None => false,
+        }
     }
 
     pub fn validate_protocol_version(&self, value: &DecidedValue) -> bool {
@@ -150,7 +152,10 @@ impl ReadValidator {
     }
 
     pub async fn process_decided_value(&mut self, value: DecidedValue) -> u64 {
-        let height = Self::get_decided_value_height(&value);
+        let Some(height) = self.get_decided_value_height(&value) else {
+            error!(last_height = %self.last_height, "Dropping malformed decided value");
+            return 0;
+        };
         let verified = self.verify_signatures(&value);
         if !verified {
             error!(%height, last_height = %self.last_height, "Dropping decided block because its signatures are invalid");
diff --git a/src/node/snapchain_read_node.rs b/src/node/snapchain_read_node.rs
index b58c727..9c08c17 100644
--- a/src/node/snapchain_read_node.rs
+++ b/src/node/snapchain_read_node.rs
@@ -187,22 +187,26 @@ impl SnapchainReadNode {
         }
     }
     pub fn dispatch_decided_value(&self, decided_value: proto::DecidedValue) {
-        let shard_id = match decided_value.value.as_ref().unwrap() {
-            proto::decided_value::Value::Shard(shard_chunk) => {
-                shard_chunk
-                    .header
-                    .as_ref()
-                    .unwrap()
-                    .height
-                    .unwrap()
-                    .shard_index
+        let height = match decided_value.value.as_ref() {
+            Some(proto::decided_value::Value::Shard(shard_chunk)) => {
+                shard_chunk.header.as_ref().and_then(|header| header.height)
             }
-            proto::decided_value::Value::Block(block) => {
-                block.header.as_ref().unwrap().height.unwrap().shard_index
+            Some(proto::decided_value::Value::Block(block)) => {
+                block.header.as_ref().and_then(|header| header.height)
             }
+            None => None,
         };
-        let actors = self.consensus_actors.get(&shard_id).unwrap();
-        actors.cast_decided_value(decided_value).unwrap();
+        let Some(height) = height else {
+            warn!("Dropping decided value without a height");
+            return;
+        };
+        if let Some(actors) = self.consensus_actors.get(&height.shard_index) {
+            if let Err(e) = actors.cast_decided_value(decided_value) {
+                warn!("Failed to forward decided value to actor: {:?}", e);
+            }
+        } else {
+            warn!(%height, "No actor found for shard, dropping decided value");
+        }
     }
 
     pub fn dispatch_network_event(&self, shard: MalachiteEventShard, event: MalachiteNetworkEvent) {
-- 
2.43.0


From 3143d984136fac9f10886288564d43727516afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 06/30] fix: trie compaction deletes the compacted child's row,
 not an unrelated node's

delete_to_txn adds the MerkleTrieNode prefix itself, but was given a path that already
carried it. The row deleted was [8, 8, path...], which is the node at nibble path
[8, path...]: compaction left its own child behind and could remove a live node, whose
keys were then missing after a restart.
---
 src/storage/trie/trie_node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/trie_node.rs b/src/storage/trie/trie_node.rs
index 6f05f8e..29c7c2e 100644
--- a/src/storage/trie/trie_node.rs
+++ b/src/storage/trie/trie_node.rs
@@ -505,7 +505,8 @@ impl TrieNode {
                     self.children.remove(&char);
 
                     // Delete child
-                    let child_prefix = Self::make_primary_key(&prefix, Some(char));
+                    let mut child_prefix = prefix.clone();
+                    child_prefix.push(char);
                     self.delete_to_txn(txn, &child_prefix);
                 }
             }
-- 
2.43.0


From 1030024fa1b0e6aee945a891036d10a7f693f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 07/30] fix: a trie page token cannot make the node reserve
 memory it does not fill

The segment count comes from the caller; a token of eight characters could ask for
100 GB and abort the process.
---
 src/storage/trie/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/util.rs b/src/storage/trie/util.rs
index 3a4c207..c000cfd 100644
--- a/src/storage/trie/util.rs
+++ b/src/storage/trie/util.rs
@@ -62,7 +62,8 @@ pub fn decode_trie_page_token(encoded: &str) -> Result<Option<Vec<Vec<u8>>>, Tri
     let mut offset = 0usize;
     let count = u32::from_be_bytes(bytes[offset..offset + 4].try_into().unwrap()) as usize;
     offset += 4;
-    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count);
+    // Every segment takes at least its length prefix, so never reserve more than the token can hold
+    let mut out: Vec<Vec<u8>> = Vec::with_capacity(count.min(bytes.len() / 4));
     for _ in 0..count {
         if offset + 4 > bytes.len() {
             return Err(TrieError::TokenDecodeError(
-- 
2.43.0


From 2201366374ecc45db9bcf6b7341b66323233ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 08/30] fix: process revoked signers and prune types in a fixed
 order

The per-transaction sets were std HashSets, whose iteration order is random per
process, so the order and ids of the emitted prune and revoke events differed
between nodes for the same block.
---
 src/storage/store/engine.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 31845aa..149461b 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -36,7 +36,7 @@ use informalsystems_malachitebft_core_types::Round;
 use itertools::Itertools;
 use merkle_trie::TrieKey;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 use std::str;
 use std::string::ToString;
 use std::sync::Arc;
@@ -1243,8 +1243,10 @@ impl ShardEngine {
         let mut pruned_messages_count = 0;
         let mut revoked_messages_count = 0;
         let mut events = vec![];
-        let mut message_types_to_prune = HashSet::new();
-        let mut revoked_signers = HashSet::new();
+        // Ordered sets, since iteration order determines the order (and ids) of the emitted events and
+        // must be the same on every node.
+        let mut message_types_to_prune = BTreeSet::new();
+        let mut revoked_signers = BTreeSet::new();
 
         let mut validation_errors = vec![];
 
-- 
2.43.0


From 3e19486eff5492e73063591ee28b42a322166bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 09/30] fix: keep the fname by-fid index when a name is
 re-registered to its holder

put_username_proof_transaction wrote the by-fid key and then deleted it when the
existing proof belonged to the same fid, so lookups by fid stopped finding the name.
---
 src/storage/store/account/name_registry_events.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/store/account/name_registry_events.rs b/src/storage/store/account/name_registry_events.rs
index 099527d..3347131 100644
--- a/src/storage/store/account/name_registry_events.rs
+++ b/src/storage/store/account/name_registry_events.rs
@@ -83,8 +83,9 @@ pub fn put_username_proof_transaction(
     let secondary_key = make_fname_username_proof_by_fid_key(username_proof.fid);
     txn.put(secondary_key, primary_key);
 
-    // If a username is being transferred, remove the existing secondary key.
-    if let Some(existing_fid) = existing_fid {
+    // If a username is being transferred, remove the existing secondary key. A new proof for the same
+    // fid keeps it, since it's the key that was just written.
+    if let Some(existing_fid) = existing_fid.filter(|fid| *fid != username_proof.fid) {
         let secondary_key = make_fname_username_proof_by_fid_key(existing_fid);
         txn.delete(secondary_key);
     }
-- 
2.43.0


From 3375f4704b7abc34f41926460656a232fbb36f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 10/30] fix: keep the root row of a trie whose last key is
 deleted

Deleting the last key deleted the root's row, so the reload that follows every
commit and proposal failed with UnableToReloadRoot and the engine panicked.
---
 src/storage/trie/trie_node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/trie/trie_node.rs b/src/storage/trie/trie_node.rs
index 29c7c2e..0887357 100644
--- a/src/storage/trie/trie_node.rs
+++ b/src/storage/trie/trie_node.rs
@@ -484,7 +484,8 @@ impl TrieNode {
         if successes > 0 {
             self.items -= successes;
 
-            if self.items == 0 {
+            // The root is kept even when it's empty, because the trie can't be reloaded without it.
+            if self.items == 0 && current_index > 0 {
                 // Delete this node
                 self.delete_to_txn(txn, &prefix);
                 self.update_hash(child_hashes, &prefix)?;
-- 
2.43.0


From b8e4c87588c1792ee70a1a90e3d3ff2a391fde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 11/30] fix: reads by parent or target url skip rows of longer
 urls

The index rows of a url are found by the url's bytes as a prefix, so a
longer url that starts with it matched too; its rows were cut at the
wrong place and the whole read failed with not_found.
---
 src/storage/store/account/cast_store.rs     |  8 +++++++-
 src/storage/store/account/reaction_store.rs | 13 +++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/storage/store/account/cast_store.rs b/src/storage/store/account/cast_store.rs
index b0e6608..b56f862 100644
--- a/src/storage/store/account/cast_store.rs
+++ b/src/storage/store/account/cast_store.rs
@@ -2,7 +2,8 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash,
     store::{Store, StoreDef},
-    MessagesPage, StoreEventHandler, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, HASH_LENGTH, PAGE_SIZE_MAX, TRUE_VALUE,
+    TS_HASH_LENGTH,
 };
 use crate::storage::constants::{RootPrefix, UserPostfix};
 use crate::storage::db::PageOptions;
@@ -463,6 +464,11 @@ impl CastStore {
                 let ts_hash_offset = prefix.len();
                 let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
 
+                // A parent url can be the beginning of another; skip the casts of longer ones
+                if key.len() != fid_offset + FID_BYTES {
+                    return Ok(false);
+                }
+
                 let fid = read_fid_key(key, fid_offset);
                 let ts_hash = read_ts_hash(key, ts_hash_offset);
                 let message_primary_key =
diff --git a/src/storage/store/account/reaction_store.rs b/src/storage/store/account/reaction_store.rs
index c8a5e90..f0d7744 100644
--- a/src/storage/store/account/reaction_store.rs
+++ b/src/storage/store/account/reaction_store.rs
@@ -2,7 +2,7 @@ use super::{
     get_many_messages, make_cast_id_key, make_fid_key, make_message_primary_key, make_user_key,
     read_fid_key, read_ts_hash, require_page_token_in_prefix,
     store::{FollowIndexGate, Store, StoreDef},
-    MessagesPage, StoreEventHandler, PAGE_SIZE_MAX, TS_HASH_LENGTH,
+    MessagesPage, StoreEventHandler, FID_BYTES, PAGE_SIZE_MAX, TS_HASH_LENGTH,
 };
 use crate::core::channel_uri::{channel_id_for_follow_target, ChannelRegistrar};
 use crate::storage::store::account::ChannelPage;
@@ -747,12 +747,17 @@ impl ReactionStore {
             Some(increment_vec_u8(&start_prefix)),
             page_options,
             |key, value| {
+                let ts_hash_offset = start_prefix.len();
+                let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
+
+                // A target url can be the beginning of another; skip the reactions to longer ones
+                if key.len() != fid_offset + FID_BYTES {
+                    return Ok(false);
+                }
+
                 if reaction_type == ReactionType::None as i32
                     || (value.len() == 1 && value[0] == reaction_type as u8)
                 {
-                    let ts_hash_offset = start_prefix.len();
-                    let fid_offset = ts_hash_offset + TS_HASH_LENGTH;
-
                     let fid = read_fid_key(key, fid_offset);
                     let ts_hash = read_ts_hash(key, ts_hash_offset);
                     let message_primary_key =
-- 
2.43.0


From ac3bff59d897802b511350f02c872691296a286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 12/30] fix: revoking a key is never rate limited

KEY_REMOVE fell through to the storage-quota limiter, so spam signed with a
compromised key could use up the budget and hold its own revocation back.
---
 src/mempool/mempool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index b5f11a4..a1fd855 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -718,6 +718,10 @@ impl Mempool {
                     }
                 }
 
+                if user_msg.msg_type() == MessageType::KeyRemove {
+                    return false;
+                }
+
                 if is_live_at(user_msg) {
                     if !self.live_at_rate_limits.consume_for_fid(fid) {
                         self.statsd_client
-- 
2.43.0


From a013b85f6e2567ea9a8444b233dc920db7d8c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 13/30] fix: block events of one block leave the mempool in
 sequence

Their keys were compared as decimal strings, so with equal timestamps event
10 came out before event 9; the engine drops an event that is not the next
one, and it had to be fetched and submitted again after a timeout.
---
 src/mempool/mempool.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mempool/mempool.rs b/src/mempool/mempool.rs
index a1fd855..305e09d 100644
--- a/src/mempool/mempool.rs
+++ b/src/mempool/mempool.rs
@@ -333,7 +333,8 @@ impl ValidatorMessageMempoolExt for proto::ValidatorMessage {
             MempoolKey::new(
                 MempoolMessageKind::ValidatorMessage,
                 block_event.block_timestamp(),
-                block_event.seqnum().to_string(),
+                // Padded, so that events of one block stay in sequence when compared as strings
+                format!("{:020}", block_event.seqnum()),
             )
         } else {
             MempoolKey::new(
-- 
2.43.0


From 4293eb279dd5321a9202c3a461161cdd84635ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 14/30] fix: polling a base contract ends at the stop block

---
 src/connectors/onchain_events/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/connectors/onchain_events/mod.rs b/src/connectors/onchain_events/mod.rs
index f86988f..087be0a 100644
--- a/src/connectors/onchain_events/mod.rs
+++ b/src/connectors/onchain_events/mod.rs
@@ -1326,15 +1326,15 @@ impl Subscriber {
         // Get the current block number
         let current_block = self.latest_block_on_chain().await?;
 
-        // If there are new blocks to process
-        while *from_block <= current_block {
-            let mut to_block = match self.stop_block_number {
-                Some(stop_block) => stop_block.min(current_block),
-                None => current_block,
-            };
+        let last_block = match self.stop_block_number {
+            Some(stop_block) => stop_block.min(current_block),
+            None => current_block,
+        };
 
+        // If there are new blocks to process
+        while *from_block <= last_block {
             // Paginate through blocks in batches
-            to_block = to_block.min(*from_block + BASE_BLOCK_PAGE_SIZE);
+            let to_block = last_block.min(*from_block + BASE_BLOCK_PAGE_SIZE);
 
             // Create filter for this contract's events
             let filter = Filter::new()
-- 
2.43.0


From b0efb4bb54ced7f2396c519bd2e0960fed3a9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 15/30] fix: retrying a username asks for that name only

---
 src/connectors/fname/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connectors/fname/mod.rs b/src/connectors/fname/mod.rs
index b66427b..5c6acd4 100644
--- a/src/connectors/fname/mod.rs
+++ b/src/connectors/fname/mod.rs
@@ -353,10 +353,12 @@ impl Fetcher {
     async fn retry_fname(&mut self, fname: &str) -> Result<(), FetchError> {
         info!(fname, "Retrying fname events for fname");
 
-        let url = format!("{}?fname={}", self.cfg.url, fname);
+        let mut url =
+            reqwest::Url::parse(&self.cfg.url).map_err(|_| FetchError::InvalidFormat)?;
+        url.query_pairs_mut().append_pair("fname", fname);
         debug!(%url, "fetching current transfer for retry");
 
-        let response = reqwest::get(&url).await?.json::<TransfersData>().await?;
+        let response = reqwest::get(url).await?.json::<TransfersData>().await?;
 
         for t in response.transfers {
             info!(
-- 
2.43.0


From 5a97d3aa69041807395b14bab2fa14ee258d7ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 16/30] fix: the tier registry's migration is no signer
 migration

---
 src/connectors/onchain_events/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connectors/onchain_events/mod.rs b/src/connectors/onchain_events/mod.rs
index 087be0a..873796c 100644
--- a/src/connectors/onchain_events/mod.rs
+++ b/src/connectors/onchain_events/mod.rs
@@ -1076,7 +1076,10 @@ impl Subscriber {
                 .await;
                 Ok(())
             }
-            Some(&KeyRegistryAbi::Migrated::SIGNATURE_HASH) => {
+            // The Base tier registry emits a Migrated(uint256) of its own, which is about tiers.
+            Some(&KeyRegistryAbi::Migrated::SIGNATURE_HASH)
+                if matches!(chain, node_local_state::Chain::Optimism) =>
+            {
                 let KeyRegistryAbi::Migrated { keysMigratedAt } = event.log_decode()?.inner.data;
                 let migrated_at = keysMigratedAt.try_into()?;
                 add_event(
-- 
2.43.0


From 008d0634e8012f9728856f2f205010e47d08bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 17/30] fix: paging a read over all shards ends

A shard read to its end was scanned again from the start on every later page:
its rows were repeated and there always was a next page. Keep per-shard
cursors, as the channel follow reads do.
---
 src/network/server.rs | 434 ++++++++++++++----------------------------
 1 file changed, 138 insertions(+), 296 deletions(-)

diff --git a/src/network/server.rs b/src/network/server.rs
index a24c73e..392ebd9 100644
--- a/src/network/server.rs
+++ b/src/network/server.rs
@@ -310,6 +310,48 @@ fn encode_shard_cursors(cursors: Vec<ShardCursor>) -> Result<Option<Vec<u8>>, St
         .map_err(|err| Status::internal(format!("failed to serialize next_page_token: {err}")))
 }
 
+/// Reads one page of a cross-shard enumeration: the next rows of every hosted shard that has not
+/// been read to its end, and the token to continue with, `None` once all have been.
+fn fan_out_page<T>(
+    shards: &[(u32, &Stores)],
+    page_size: Option<u32>,
+    page_token: Option<Vec<u8>>,
+    reverse: Option<bool>,
+    mut read: impl FnMut(&Stores, PageOptions) -> (Vec<T>, Option<Vec<u8>>),
+) -> Result<(Vec<T>, Option<Vec<u8>>), Status> {
+    let mut cursors = decode_shard_cursors(page_token, shards)?;
+    let mut rows = Vec::new();
+    let mut next_cursors = Vec::with_capacity(shards.len());
+    for (shard_id, stores) in shards {
+        let page_token = match cursors.remove(shard_id) {
+            Some(ShardScan::Fresh) => None,
+            Some(ShardScan::Resume(token)) => Some(token),
+            // Already read to the end on an earlier page: scanning again would start over.
+            _ => {
+                next_cursors.push(ShardCursor {
+                    shard_id: *shard_id,
+                    scan: ShardScan::Exhausted,
+                });
+                continue;
+            }
+        };
+        let (shard_rows, next_page_token) = read(
+            *stores,
+            PageOptions {
+                page_size: page_size.map(|s| s as usize),
+                page_token,
+                reverse: reverse.unwrap_or(false),
+            },
+        );
+        rows.extend(shard_rows);
+        next_cursors.push(ShardCursor {
+            shard_id: *shard_id,
+            scan: next_page_token.map_or(ShardScan::Exhausted, ShardScan::Resume),
+        });
+    }
+    Ok((rows, encode_shard_cursors(next_cursors)?))
+}
+
 /// Translate a HubError raised by the channel stores into a gRPC `Status`.
 ///
 /// Only `bad_request.invalid_param` is caller-supplied on these read paths — a
@@ -1071,6 +1113,17 @@ impl MyHubService {
             .collect()
     }
 
+    /// The shards this node hosts, in order.
+    fn hosted_shards(&self) -> Vec<(u32, &Stores)> {
+        let mut shards: Vec<_> = self
+            .shard_stores
+            .iter()
+            .map(|(shard_id, stores)| (*shard_id, stores))
+            .collect();
+        shards.sort_by_key(|(shard_id, _)| *shard_id);
+        shards
+    }
+
     fn get_stores_for_shard(&self, shard_id: u32) -> Result<&Stores, Status> {
         match self.shard_stores.get(&shard_id) {
             Some(store) => Ok(store),
@@ -2043,62 +2096,32 @@ impl HubService for MyHubService {
     ) -> Result<Response<EventsResponse>, Status> {
         let req = request.into_inner();
 
-        let num_shards;
-        let shard_stores;
-        match req.shard_index {
-            None => {
-                num_shards = self.num_shards;
-                shard_stores = self.shard_stores.values().collect::<Vec<_>>();
-            }
-            Some(index) => {
-                num_shards = 1;
-                shard_stores = match self.shard_stores.get(&index) {
-                    Some(store) => {
-                        vec![store]
-                    }
-                    None => return Err(Status::invalid_argument("Shard not found".to_string())),
-                };
-            }
-        }
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards as usize]
+        let shards = match req.shard_index {
+            None => self.hosted_shards(),
+            Some(index) => match self.shard_stores.get(&index) {
+                Some(stores) => vec![(index, stores)],
+                None => return Err(Status::invalid_argument("Shard not found".to_string())),
+            },
         };
-        if per_shard_tokens.len() != num_shards as usize {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-        let pages: Vec<EventsPage> = shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(store, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-                let (events, _) = Self::get_events_from_store(
-                    store,
+        let (events, next_page_token) = fan_out_page(
+            &shards,
+            req.page_size,
+            req.page_token,
+            req.reverse,
+            |stores, page_options| {
+                let (page, _) = Self::get_events_from_store(
+                    stores,
                     req.start_id,
                     req.stop_id,
                     Some(page_options),
                     None,
                 );
-                events
-            })
-            .collect();
-        let combined_events: Vec<HubEvent> =
-            pages.iter().flat_map(|page| page.events.clone()).collect();
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
+                (page.events, page.next_page_token)
+            },
+        )?;
         let response = EventsResponse {
-            events: combined_events,
-            next_page_token: Some(new_page_token),
+            events,
+            next_page_token,
         };
 
         Ok(Response::new(response))
@@ -2391,47 +2414,19 @@ impl HubService for MyHubService {
             }
             None => return Err(Status::not_found("Parent not specified".to_string())),
         };
-        let num_shards = self.shard_stores.len();
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-                let cast_store = &shard_entry.1.cast_store;
-                return CastStore::get_casts_by_parent(cast_store, &parent, &page_options)
-                    .unwrap_or(MessagesPage {
-                        messages: vec![],
-                        next_page_token: None,
-                    });
-            })
-            .collect();
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
+        let (messages, next_page_token) = fan_out_page(
+            &self.hosted_shards(),
+            req.page_size,
+            req.page_token,
+            req.reverse,
+            |stores, page_options| {
+                CastStore::get_casts_by_parent(&stores.cast_store, &parent, &page_options)
+                    .map_or((vec![], None), |page| (page.messages, page.next_page_token))
+            },
+        )?;
         let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
+            messages,
+            next_page_token,
         };
 
         Ok(Response::new(response))
@@ -2444,55 +2439,19 @@ impl HubService for MyHubService {
         let req = request.into_inner();
         let mention = req.fid;
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> =
-            self.shard_stores
-                .iter()
-                .zip(per_shard_tokens.into_iter())
-                .map(|(shard_entry, shard_token)| {
-                    let page_options = PageOptions {
-                        page_size: req.page_size.map(|s| s as usize),
-                        page_token: shard_token,
-                        reverse: req.reverse.unwrap_or(false),
-                    };
-
-                    let store = &shard_entry.1.cast_store;
-                    return CastStore::get_casts_by_mention(store, mention, &page_options)
-                        .unwrap_or(MessagesPage {
-                            messages: vec![],
-                            next_page_token: None,
-                        });
-                })
-                .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-
+        let (messages, next_page_token) = fan_out_page(
+            &self.hosted_shards(),
+            req.page_size,
+            req.page_token,
+            req.reverse,
+            |stores, page_options| {
+                CastStore::get_casts_by_mention(&stores.cast_store, mention, &page_options)
+                    .map_or((vec![], None), |page| (page.messages, page.next_page_token))
+            },
+        )?;
         let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
+            messages,
+            next_page_token,
         };
 
         Ok(Response::new(response))
@@ -2516,61 +2475,24 @@ impl HubService for MyHubService {
             _ => return Err(Status::not_found("Target not specified".to_string())),
         };
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-
-                let store = &shard_entry.1.reaction_store;
-
-                return ReactionStore::get_reactions_by_target(
-                    store,
+        let (messages, next_page_token) = fan_out_page(
+            &self.hosted_shards(),
+            req.page_size,
+            req.page_token,
+            req.reverse,
+            |stores, page_options| {
+                ReactionStore::get_reactions_by_target(
+                    &stores.reaction_store,
                     &target,
                     reaction_type,
                     &page_options,
                 )
-                .unwrap_or(MessagesPage {
-                    messages: vec![],
-                    next_page_token: None,
-                });
-            })
-            .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-
+                .map_or((vec![], None), |page| (page.messages, page.next_page_token))
+            },
+        )?;
         let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
+            messages,
+            next_page_token,
         };
 
         Ok(Response::new(response))
@@ -2594,66 +2516,24 @@ impl HubService for MyHubService {
             None => return Err(Status::not_found("Target not specified".to_string())),
         };
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-
-                let store = &shard_entry.1.reaction_store;
-
-                return ReactionStore::get_reactions_by_target(
-                    store,
+        let (messages, next_page_token) = fan_out_page(
+            &self.hosted_shards(),
+            req.page_size,
+            req.page_token,
+            req.reverse,
+            |stores, page_options| {
+                ReactionStore::get_reactions_by_target(
+                    &stores.reaction_store,
                     &target,
                     reaction_type,
                     &page_options,
                 )
-                .unwrap_or(MessagesPage {
-                    messages: vec![],
-                    next_page_token: None,
-                });
-            })
-            .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = if next_page_tokens.iter().any(|token| token.is_some()) {
-            Some(serde_json::to_vec(&next_page_tokens).map_err(|e| {
-                Status::internal(format!("Failed to serialize next_page_token: {}", e))
-            })?)
-        } else {
-            None // Return None if no subsequent page exists
-        };
-
+                .map_or((vec![], None), |page| (page.messages, page.next_page_token))
+            },
+        )?;
         let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: new_page_token,
+            messages,
+            next_page_token,
         };
 
         Ok(Response::new(response))
@@ -3558,11 +3438,9 @@ impl HubService for MyHubService {
     ) -> Result<Response<MessagesResponse>, Status> {
         let req = request.into_inner();
 
-        if req.link_type.clone().is_none() {
-            return Err(Status::invalid_argument(
-                "link_type is required".to_string(),
-            ));
-        }
+        let link_type = req
+            .link_type
+            .ok_or_else(|| Status::invalid_argument("link_type is required".to_string()))?;
 
         let target = match req.target {
             Some(links_by_target_request::Target::TargetFid(fid)) => {
@@ -3571,60 +3449,24 @@ impl HubService for MyHubService {
             None => return Err(Status::not_found("Target not specified".to_string())),
         };
 
-        let num_shards = self.shard_stores.len();
-
-        let per_shard_tokens: Vec<Option<Vec<u8>>> = if let Some(token_bytes) = req.page_token {
-            serde_json::from_slice(&token_bytes)
-                .map_err(|e| Status::invalid_argument(format!("Invalid page token: {}", e)))?
-        } else {
-            vec![None; num_shards]
-        };
-
-        if per_shard_tokens.len() != num_shards {
-            return Err(Status::invalid_argument(
-                "Page token does not match number of shards".to_string(),
-            ));
-        }
-
-        let pages: Vec<MessagesPage> = self
-            .shard_stores
-            .iter()
-            .zip(per_shard_tokens.into_iter())
-            .map(|(shard_entry, shard_token)| {
-                let page_options = PageOptions {
-                    page_size: req.page_size.map(|s| s as usize),
-                    page_token: shard_token,
-                    reverse: req.reverse.unwrap_or(false),
-                };
-
-                let store = &shard_entry.1.link_store;
+        let (messages, next_page_token) = fan_out_page(
+            &self.hosted_shards(),
+            req.page_size,
+            req.page_token,
+            req.reverse,
+            |stores, page_options| {
                 LinkStore::get_links_by_target(
-                    store,
+                    &stores.link_store,
                     &target,
-                    req.link_type.clone().unwrap(),
+                    link_type.clone(),
                     &page_options,
                 )
-                .unwrap_or(MessagesPage {
-                    messages: vec![],
-                    next_page_token: None,
-                })
-            })
-            .collect();
-
-        let combined_messages: Vec<Message> = pages
-            .iter()
-            .flat_map(|page| page.messages.clone())
-            .collect();
-
-        let next_page_tokens: Vec<Option<Vec<u8>>> =
-            pages.into_iter().map(|page| page.next_page_token).collect();
-
-        let new_page_token = serde_json::to_vec(&next_page_tokens)
-            .map_err(|e| Status::internal(format!("Failed to serialize next_page_token: {}", e)))?;
-
+                .map_or((vec![], None), |page| (page.messages, page.next_page_token))
+            },
+        )?;
         let response = MessagesResponse {
-            messages: combined_messages,
-            next_page_token: Some(new_page_token),
+            messages,
+            next_page_token,
         };
 
         Ok(Response::new(response))
-- 
2.43.0


From 3e6478576ea71eb55a6f57bc2107ce839f89a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 18/30] fix: list only the events that made signers active

A key added again after its removal was listed once per event about it,
removals included.
---
 src/storage/store/account/onchain_event_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/store/account/onchain_event_store.rs b/src/storage/store/account/onchain_event_store.rs
index e1966f3..7c7628e 100644
--- a/src/storage/store/account/onchain_event_store.rs
+++ b/src/storage/store/account/onchain_event_store.rs
@@ -1167,12 +1167,13 @@ impl OnchainEventStore {
                 None => false,
                 Some(body) => match body {
                     on_chain_event::Body::SignerEventBody(signer_event_body) => {
+                        // Only the event that made the key active, not the earlier ones about it
                         if let Ok(active_signer) = self.get_active_signer(
                             onchain_event.fid,
                             signer_event_body.key.clone(),
                             None,
                         ) {
-                            active_signer.is_some()
+                            active_signer.as_ref() == Some(onchain_event)
                         } else {
                             false
                         }
-- 
2.43.0


From 1bb974e847ad4a8a8709b07172b62f083b6fcbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 19/30] fix: a removed auth key is no auth address

---
 src/network/server.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/network/server.rs b/src/network/server.rs
index 392ebd9..cb39283 100644
--- a/src/network/server.rs
+++ b/src/network/server.rs
@@ -3398,12 +3398,14 @@ impl HubService for MyHubService {
             {
                 for signer_event in events {
                     if let Some(Body::SignerEventBody(signer_body)) = &signer_event.body {
-                        // Check if this is an auth key (keyType=2) and matches the address
-                        if signer_body.key_type == 2
-                            && signer_body.key == address
-                            && signer_body.event_type() == SignerEventType::Add
-                        {
-                            is_auth = true;
+                        // Check if this is an auth key (keyType=2) and matches the address;
+                        // events come in chain order, so the last one about the key counts
+                        if signer_body.key == address {
+                            match signer_body.event_type() {
+                                SignerEventType::Add => is_auth = signer_body.key_type == 2,
+                                SignerEventType::Remove => is_auth = false,
+                                _ => {}
+                            }
                         }
                     }
                 }
-- 
2.43.0


From ee43f29a48b7c0291f4c160c61cd3a7f7e14eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 20/30] fix: list a username once, not once per shard

---
 src/network/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/server.rs b/src/network/server.rs
index cb39283..833d97e 100644
--- a/src/network/server.rs
+++ b/src/network/server.rs
@@ -2660,7 +2660,10 @@ impl HubService for MyHubService {
         for (_shard_id, stores) in &self.shard_stores {
             match UserDataStore::get_username_proof_by_fid(&stores.user_data_store, fid) {
                 Ok(Some(proof)) => {
-                    combined_proofs.push(proof);
+                    // Transfers of usernames are mirrored to every shard
+                    if !combined_proofs.contains(&proof) {
+                        combined_proofs.push(proof);
+                    }
                 }
                 Ok(None) => {}
                 Err(e) => {
-- 
2.43.0


From 6c06257b5969f5597f60ec7a6a2a258fc5fc0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 21/30] fix: look up the fid of a message to validate in its
 bytes

validateMessage took the fid from the data field alone. A message whose data
travels as data_bytes, as clients send it, was therefore judged as fid 0's: on
shard 0's fid's stores and without its owner's pro subscription, so that a
valid 10k cast was called invalid.
---
 src/network/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network/server.rs b/src/network/server.rs
index 833d97e..7724219 100644
--- a/src/network/server.rs
+++ b/src/network/server.rs
@@ -2302,9 +2302,13 @@ impl HubService for MyHubService {
         request: Request<Message>,
     ) -> Result<Response<ValidationResponse>, Status> {
         let request = request.into_inner();
-        let stores = self.get_stores_for(request.fid())?;
+        // The data may come as bytes only (or disagree with them): what counts is what they say.
+        let mut decoded = request.clone();
+        message_bytes_decode(&mut decoded);
+        let fid = decoded.fid();
+        let stores = self.get_stores_for(fid)?;
         let is_pro_user = stores
-            .is_pro_user(request.fid(), &FarcasterTime::current())
+            .is_pro_user(fid, &FarcasterTime::current())
             .map_err(|err| Status::from_error(Box::new(err)))?;
         let result = validations::message::validate_message(
             &request,
-- 
2.43.0


From 6595329301e9947211bd95b4ebce4068afb5dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 22/30] fix: list the chunks of a snapshot in order

---
 src/storage/db/snapshot.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/db/snapshot.rs b/src/storage/db/snapshot.rs
index d801545..9c2dd65 100644
--- a/src/storage/db/snapshot.rs
+++ b/src/storage/db/snapshot.rs
@@ -549,10 +549,12 @@ pub async fn upload_to_s3(
         start_date,
         start_timetamp / 1000
     );
-    let files = std::fs::read_dir(chunked_dir_path)?;
+    // The chunks are put together again in the order they are listed here, and read_dir returns
+    // them in no particular order.
+    let mut files = std::fs::read_dir(chunked_dir_path)?.collect::<Result<Vec<_>, io::Error>>()?;
+    files.sort_by_key(|entry| entry.file_name());
     let mut file_names: Vec<String> = vec![];
     for entry in files {
-        let entry = entry?;
         let file_name = entry
             .file_name()
             .to_str()
-- 
2.43.0


From 5568cab23af9870d59392886d1350793ee55c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 23/30] fix: clearing a shard's old snapshots removed those of
 shards whose number starts with it

---
 src/storage/db/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/db/snapshot.rs b/src/storage/db/snapshot.rs
index 9c2dd65..6fa32b7 100644
--- a/src/storage/db/snapshot.rs
+++ b/src/storage/db/snapshot.rs
@@ -200,7 +200,9 @@ pub async fn clear_old_snapshots(
 ) -> Result<(), SnapshotError> {
     let s3_client = create_s3_client(&snapshot_config).await;
     let snapshot_dir = snapshot_directory(network, shard_id);
-    let objects = get_objects_under_key(&s3_client, &snapshot_config, snapshot_dir.clone()).await?;
+    // With the slash, as shard 1's directory is a prefix of shard 10's
+    let objects =
+        get_objects_under_key(&s3_client, &snapshot_config, format!("{}/", snapshot_dir)).await?;
     let metadata = download_metadata(network, shard_id, snapshot_config).await?;
     let old_objects = objects
         .into_iter()
-- 
2.43.0


From 3a22dbe61e55e17083ee8b260ab61e58914083f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 24/30] fix: a snapshot of a database that is not open or
 read-only was published empty

---
 src/storage/db/backup.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/storage/db/backup.rs b/src/storage/db/backup.rs
index a688102..cfaac77 100644
--- a/src/storage/db/backup.rs
+++ b/src/storage/db/backup.rs
@@ -97,17 +97,17 @@ pub fn backup_db(
     write_options.disable_wal(true); // Significantly faster, WAL doesn't provide benefits for backups
     let mut write_batch = rocksdb::WriteBatch::default();
 
-    let backup_thread = std::thread::spawn(move || {
+    let backup_thread = std::thread::spawn(move || -> Result<(), RocksdbError> {
         let provider = db.db();
         let main_db_snapshot = match provider.as_ref() {
             Some(DBProvider::Transaction(main_db)) => main_db.snapshot(),
             Some(DBProvider::ReadOnly(_)) => {
                 warn!("Main database is read-only, cannot create snapshot");
-                return;
+                return Err(RocksdbError::ReadOnly);
             }
             None => {
                 warn!("Main database is not open, cannot create snapshot");
-                return;
+                return Err(RocksdbError::DbNotOpen);
             }
         };
 
@@ -134,9 +134,10 @@ pub fn backup_db(
         info!("Backup completed: {}", count);
         drop(main_db_snapshot);
         drop(backup_db);
+        Ok(())
     });
 
-    backup_thread.join().unwrap();
+    backup_thread.join().unwrap()?;
     info!(
         "Backup completed, time taken = {:?}",
         chrono::Utc::now().naive_utc() - now
-- 
2.43.0


From 5c800bf3984bc2f238bfe14363be140337cc0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 25/30] fix: refuse replicated messages whose data is not what
 was signed

---
 src/bootstrap/replication/service.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index 73ae846..563c162 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -1172,8 +1172,16 @@ impl ReplicatorBootstrap {
         for trie_message_entry in trie_messages.iter() {
             if let Some(TrieMessage::UserMessage(m)) = &trie_message_entry.trie_message {
                 // Validate message hash first
-                if m.data_bytes.is_some() {
-                    validate_message_hash(m.hash_scheme, &m.data_bytes.as_ref().unwrap(), &m.hash)?;
+                if let Some(data_bytes) = &m.data_bytes {
+                    validate_message_hash(m.hash_scheme, data_bytes, &m.hash)?;
+
+                    // The stores work on `data`, so it has to be what was hashed and signed
+                    let signed_data = proto::MessageData::decode(data_bytes.as_slice()).ok();
+                    if signed_data.is_none() || m.data != signed_data {
+                        return Err(BootstrapError::ValidationError(
+                            validations::error::ValidationError::InvalidHash,
+                        ));
+                    }
                 } else {
                     if m.data.is_none() {
                         return Err(BootstrapError::ValidationError(
-- 
2.43.0


From 4cf70deb89dbb61cdffd5fedb440ecd3ee96d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:21 +0000
Subject: [PATCH 26/30] fix: resume an interrupted replication from the
 snapshot it was started with

---
 src/bootstrap/replication/rpc_client.rs | 32 +++++++++----
 src/bootstrap/replication/service.rs    | 62 ++++++++++++++++++++++++-
 2 files changed, 83 insertions(+), 11 deletions(-)

diff --git a/src/bootstrap/replication/rpc_client.rs b/src/bootstrap/replication/rpc_client.rs
index 0f6addc..4d969ac 100644
--- a/src/bootstrap/replication/rpc_client.rs
+++ b/src/bootstrap/replication/rpc_client.rs
@@ -130,23 +130,37 @@ impl RpcClientsManager {
         peer_addr: String,
         shard_id: u32,
         config: ReplicatorBootstrapConfig,
+    ) -> Result<RpcClientsManager, BootstrapError> {
+        Self::new_preferring_height(peer_addr, shard_id, config, None).await
+    }
+
+    /// Like `new`, but picks the snapshot at `preferred_height` if the peer (still) has it.
+    pub async fn new_preferring_height(
+        peer_addr: String,
+        shard_id: u32,
+        config: ReplicatorBootstrapConfig,
+        preferred_height: Option<u64>,
     ) -> Result<RpcClientsManager, BootstrapError> {
         // We'll create a new RPC client, seeded by the metadata in the peer.
 
         // First, get the metadata from the peer
         let snapshots = Self::get_shard_metadata(peer_addr.clone(), shard_id).await?;
 
-        // Go over all the snapshots and find the one with the highest height
-        let highest_snapshot = snapshots.snapshots.iter().max_by_key(|s| s.height).ok_or({
-            BootstrapError::MetadataFetchError(format!(
-                "No snapshots found for shard_id {} on peer {}",
-                shard_id, peer_addr
-            ))
-        })?;
+        // Go over all the snapshots and find the one with the preferred height, or else the highest
+        let snapshot = snapshots
+            .snapshots
+            .iter()
+            .max_by_key(|s| (Some(s.height) == preferred_height, s.height))
+            .ok_or({
+                BootstrapError::MetadataFetchError(format!(
+                    "No snapshots found for shard_id {} on peer {}",
+                    shard_id, peer_addr
+                ))
+            })?;
 
         // Create the PeerManager with the initial peer
         let peer_manager = PeerManager::new(vec![peer_addr.clone()]);
-        let height = highest_snapshot.height;
+        let height = snapshot.height;
 
         info!(
             "Initialized RpcClientsManager for shard_id {} at height {} with peer address {}",
@@ -156,7 +170,7 @@ impl RpcClientsManager {
         Ok(Self {
             shard_id,
             height,
-            metadata: highest_snapshot.clone(),
+            metadata: snapshot.clone(),
             config,
             inner: Arc::new(Mutex::new(ReplicationServiceRpcData {
                 peer_manager,
diff --git a/src/bootstrap/replication/service.rs b/src/bootstrap/replication/service.rs
index 563c162..f00b625 100644
--- a/src/bootstrap/replication/service.rs
+++ b/src/bootstrap/replication/service.rs
@@ -28,7 +28,7 @@ use ed25519_dalek::{Signature, VerifyingKey};
 use futures::future;
 use prost::Message as _;
 use std::collections::HashSet;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicUsize;
 use std::time::{Duration, Instant};
 use std::{
@@ -235,6 +235,64 @@ impl ReplicatorBootstrap {
         }))
     }
 
+    /// The height of the snapshot that an earlier, interrupted run was replicating for this shard
+    fn read_height_in_progress(&self, shard_id: u32) -> Result<Option<u64>, BootstrapError> {
+        if !self.shard_snapshot_path(shard_id).exists() {
+            return Ok(None);
+        }
+
+        let db = RocksDB::open_bulk_write_shard_db(&self.get_snapshot_rocksdb_dir(), shard_id);
+        let mut height = None;
+        for vts in 0..merkle_trie::TRIE_SHARD_SIZE {
+            let status = LocalStateStore::read_work_unit(&db, shard_id, vts).map_err(|e| {
+                BootstrapError::DatabaseError(format!("Failed to read work unit: {:?}", e))
+            })?;
+            if let Some(status) = status {
+                height = Some(status.height);
+                break;
+            }
+        }
+        db.close();
+
+        Ok(height)
+    }
+
+    fn shard_snapshot_path(&self, shard_id: u32) -> PathBuf {
+        Path::new(&self.get_snapshot_rocksdb_dir()).join(format!("shard-{}", shard_id))
+    }
+
+    /// Create the RPC client manager for a data shard. If an earlier run was interrupted, this resumes from the same
+    /// snapshot. If the peer no longer has that snapshot we have to start over, since the pages of two snapshots
+    /// can't be mixed.
+    async fn create_rpc_client_manager(
+        &self,
+        peer_address: String,
+        shard_id: u32,
+    ) -> Result<RpcClientsManager, BootstrapError> {
+        let height_in_progress = self.read_height_in_progress(shard_id)?;
+        let manager = RpcClientsManager::new_preferring_height(
+            peer_address,
+            shard_id,
+            self.config.clone(),
+            height_in_progress,
+        )
+        .await?;
+
+        if let Some(height) = height_in_progress {
+            let new_height = manager.get_metadata().height;
+            if height != new_height {
+                warn!(
+                    "Peer no longer has the snapshot of shard {} at height {}, starting over at height {}",
+                    shard_id, height, new_height
+                );
+                fs::remove_dir_all(self.shard_snapshot_path(shard_id))
+                    .map_err(|e| BootstrapError::DatabaseError(e.to_string()))?;
+            }
+        }
+
+        Ok(manager)
+    }
+
     /// Bootstrap a node from replication instead of snapshot download
     pub async fn bootstrap_using_replication(&self) -> Result<WorkUnitResponse, BootstrapError> {
         let peer_addresses = if self.replication_peer_list.is_empty() {
@@ -254,7 +312,7 @@ impl ReplicatorBootstrap {
 
         // For each shard, create a new RPC Client object, seeded by the the first peer
         let rpc_client_managers = future::join_all(data_shard_ids.iter().map(|shard_id| {
-            RpcClientsManager::new(peer_addresses[0].clone(), *shard_id, self.config.clone())
+            self.create_rpc_client_manager(peer_addresses[0].clone(), *shard_id)
         }))
         .await
         .into_iter()
-- 
2.43.0


From f1d079f64d8b8a9d6814230d5018e89fae3b261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:21 +0000
Subject: [PATCH 27/30] fix: an interrupted replication was not resumed at the
 next start

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 432c398..d80350d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -241,8 +241,13 @@ async fn schedule_background_jobs(
 }
 
 fn is_dir_empty(path: &str) -> std::io::Result<bool> {
-    let mut entries = fs::read_dir(path)?;
-    Ok(entries.next().is_none())
+    for entry in fs::read_dir(path)? {
+        // An interrupted replication bootstrap leaves its work in progress here, to be resumed.
+        if entry?.file_name() != ".snapshot" {
+            return Ok(false);
+        }
+    }
+    Ok(true)
 }
 
 fn create_replicator(
-- 
2.43.0


From ac7044ee2b69efe8991a688f5c2c29bbd04c9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 28/30] fix: nothing was pruned by age once the first block to
 keep had itself been pruned

---
 src/storage/db/rocksdb.rs  | 18 ++++++++++++++----
 src/storage/store/block.rs | 19 +++++++------------
 src/storage/store/shard.rs | 19 +++++++------------
 3 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/storage/db/rocksdb.rs b/src/storage/db/rocksdb.rs
index b9c13a4..31d51cd 100644
--- a/src/storage/db/rocksdb.rs
+++ b/src/storage/db/rocksdb.rs
@@ -707,9 +707,9 @@ impl RocksDB {
         Ok(count)
     }
 
-    // Returns finds the first key with the prefix index_prefix after start,
-    // using the value to index into the db, returning the value.
-    pub fn get_next_by_index(
+    // Finds the first key with the prefix index_prefix after start, and returns
+    // its value, the primary key it stands for, whether or not that is still there.
+    pub fn get_next_primary_key_by_index(
         &self,
         index_prefix: Vec<u8>,
         start: Vec<u8>,
@@ -728,7 +728,17 @@ impl RocksDB {
                 Ok(true) // Stop iterating after the first key
             },
         )?;
-        primary_key
+        Ok(primary_key)
+    }
+
+    // Returns finds the first key with the prefix index_prefix after start,
+    // using the value to index into the db, returning the value.
+    pub fn get_next_by_index(
+        &self,
+        index_prefix: Vec<u8>,
+        start: Vec<u8>,
+    ) -> Result<Option<Vec<u8>>, HubError> {
+        self.get_next_primary_key_by_index(index_prefix, start)?
             .map(|primary_key| {
                 self.get(&primary_key)
                     .map_err(|e| HubError::from(e))?
diff --git a/src/storage/store/block.rs b/src/storage/store/block.rs
index 242f2d6..373a743 100644
--- a/src/storage/store/block.rs
+++ b/src/storage/store/block.rs
@@ -283,20 +283,15 @@ impl BlockStore {
         let shard_index = 0; // Block store uses shard index 0.
         let timestamp_index_key = make_block_timestamp_index(shard_index, timestamp);
         self.db
-            .get_next_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
+            .get_next_primary_key_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
             .map_err(|_| BlockStorageError::TooManyBlocksInResult)? // TODO: Return the right error
-            .map(|bytes| {
-                let block = Block::decode(bytes.as_slice())
-                    .map_err(|e| BlockStorageError::DecodeError(e))?;
-                let header = block
-                    .header
-                    .as_ref()
-                    .ok_or(BlockStorageError::BlockMissingHeader)?;
-                let height = header
-                    .height
-                    .as_ref()
+            // The block itself may have been pruned already, its key still tells the height
+            .map(|primary_key| {
+                let height = primary_key
+                    .get(1..)
+                    .and_then(|bytes| bytes.try_into().ok())
                     .ok_or(BlockStorageError::BlockMissingHeight)?;
-                Ok(height.block_number)
+                Ok(u64::from_be_bytes(height))
             })
             .transpose()
     }
diff --git a/src/storage/store/shard.rs b/src/storage/store/shard.rs
index cd82a37..9c4ad53 100644
--- a/src/storage/store/shard.rs
+++ b/src/storage/store/shard.rs
@@ -298,20 +298,15 @@ impl ShardStore {
     ) -> Result<Option<u64>, ShardStorageError> {
         let timestamp_index_key = make_block_timestamp_index(self.shard_id, timestamp);
         self.db
-            .get_next_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
+            .get_next_primary_key_by_index(vec![RootPrefix::BlockIndex as u8], timestamp_index_key)
             .map_err(|_| ShardStorageError::TooManyShardsInResult)? // TODO: Return the right error
-            .map(|bytes| {
-                let shard = ShardChunk::decode(bytes.as_slice())
-                    .map_err(|e| ShardStorageError::DecodeError(e))?;
-                let header = shard
-                    .header
-                    .as_ref()
-                    .ok_or(ShardStorageError::ShardMissingHeader)?;
-                let height = header
-                    .height
-                    .as_ref()
+            // The chunk itself may have been pruned already, its key still tells the height
+            .map(|primary_key| {
+                let height = primary_key
+                    .get(1..)
+                    .and_then(|bytes| bytes.try_into().ok())
                     .ok_or(ShardStorageError::ShardMissingHeight)?;
-                Ok(height.block_number)
+                Ok(u64::from_be_bytes(height))
             })
             .transpose()
     }
-- 
2.43.0


From 3553fc33b438c29cf51a46f7a819d1bfe7dff65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:01 +0000
Subject: [PATCH 29/30] fix: the fname index migration could undo a name
 transfer committed beside it

---
 .../store/migrations/m1_fix_fname_index.rs    | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/storage/store/migrations/m1_fix_fname_index.rs b/src/storage/store/migrations/m1_fix_fname_index.rs
index 04038ce..f3f79fb 100644
--- a/src/storage/store/migrations/m1_fix_fname_index.rs
+++ b/src/storage/store/migrations/m1_fix_fname_index.rs
@@ -1,4 +1,5 @@
 use super::{AsyncMigration, MigrationContext, MigrationError};
+use crate::proto::UserNameProof;
 use crate::storage::constants::UserPostfix;
 use crate::storage::db::RocksDbTransactionBatch;
 use crate::storage::store::account::{
@@ -6,6 +7,7 @@ use crate::storage::store::account::{
 };
 use crate::storage::trie::merkle_trie::TrieKey;
 use async_trait::async_trait;
+use prost::Message;
 use tracing::{error, info};
 
 pub struct M1FixFnameSecondaryIndex;
@@ -36,7 +38,7 @@ impl AsyncMigration for M1FixFnameSecondaryIndex {
                     "Processing FID for fname secondary index fix."
                 );
             }
-            let mut txn = RocksDbTransactionBatch::new();
+            let txn = RocksDbTransactionBatch::new();
             let mut fixed_count = 0;
 
             let trie_keys = context
@@ -71,12 +73,32 @@ impl AsyncMigration for M1FixFnameSecondaryIndex {
                     &txn,
                     &name.to_vec(),
                 ) {
-                    Ok(Some(message)) => {
-                        let secondary_key = make_fname_username_proof_by_fid_key(message.fid);
-                        if context.stores.db.get(&secondary_key)?.is_none() {
-                            info!(fid, name_str, "Fixing missing secondary index for fname.");
-                            let primary_key = make_fname_username_proof_key(name);
-                            txn.put(secondary_key, primary_key);
+                    Ok(Some(_)) => {
+                        // A block may be committed beside this migration and hand the name to
+                        // another fid, so the owner is read again under a lock, in the
+                        // ascending key order that `RocksDB::commit` takes its locks in.
+                        let primary_key = make_fname_username_proof_key(name);
+                        let fixed = context
+                            .stores
+                            .db
+                            .transaction_with(|txn| {
+                                let proof = match txn.get_for_update(&primary_key, true)? {
+                                    Some(bytes) => UserNameProof::decode(bytes.as_slice()),
+                                    None => return Ok(false),
+                                };
+                                let Ok(proof) = proof else {
+                                    return Ok(false);
+                                };
+                                let secondary_key = make_fname_username_proof_by_fid_key(proof.fid);
+                                if txn.get_for_update(&secondary_key, true)?.is_some() {
+                                    return Ok(false);
+                                }
+                                txn.put(&secondary_key, &primary_key)?;
+                                Ok(true)
+                            })
+                            .map_err(MigrationError::DbError)?;
+                        if fixed {
+                            info!(fid, name_str, "Fixed missing secondary index for fname.");
                             fixed_count += 1;
                         }
                     }
@@ -90,11 +112,6 @@ impl AsyncMigration for M1FixFnameSecondaryIndex {
             }
 
             if fixed_count > 0 {
-                context
-                    .stores
-                    .db
-                    .commit(txn)
-                    .map_err(MigrationError::DbError)?;
                 info!(
                     shard_id = context.stores.shard_id,
                     fid,
-- 
2.43.0


From a628cd621789aaa345c70aecf41976cba58f3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:55 +0000
Subject: [PATCH 30/30] fix: a crash between writing a block's state and the
 block left a node that could not go on

The state of a block was committed in one write and the block itself in a second one. A node
stopped between the two came back at the height before the block with the state after it:
replaying the block then finds its messages merged already, so shard 0 panicked over the events
hash at every start, and a data shard overwrote the block's hub events. Write both in one
transaction.
---
 src/storage/store/block.rs        | 22 ++++++++++++++++++++--
 src/storage/store/block_engine.rs | 10 ++++++----
 src/storage/store/engine.rs       | 12 ++++++------
 src/storage/store/shard.rs        | 22 ++++++++++++++++++++--
 4 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/storage/store/block.rs b/src/storage/store/block.rs
index 373a743..143e76d 100644
--- a/src/storage/store/block.rs
+++ b/src/storage/store/block.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::Block;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -161,6 +161,16 @@ pub fn get_blocks_in_range(
 
 fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
     let mut txn = db.txn();
+    put_block_in_txn(db, &mut txn, block)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+fn put_block_in_txn(
+    db: &RocksDB,
+    txn: &mut RocksDbTransactionBatch,
+    block: &Block,
+) -> Result<(), BlockStorageError> {
     let header = block
         .header
         .as_ref()
@@ -178,7 +188,6 @@ fn put_block(db: &RocksDB, block: &Block) -> Result<(), BlockStorageError> {
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -197,6 +206,15 @@ impl BlockStore {
         put_block(&self.db, block)
     }
 
+    /// Adds the block to `txn`, so that it is written together with the state it leads to.
+    pub fn put_block_in_txn(
+        &self,
+        txn: &mut RocksDbTransactionBatch,
+        block: &Block,
+    ) -> Result<(), BlockStorageError> {
+        put_block_in_txn(&self.db, txn, block)
+    }
+
     #[inline]
     pub fn get_first_block(&self) -> Result<Option<Block>, BlockStorageError> {
         get_first_or_last_block(&self.db, FirstOrLast::First)
diff --git a/src/storage/store/block_engine.rs b/src/storage/store/block_engine.rs
index c6104d0..9b26fcc 100644
--- a/src/storage/store/block_engine.rs
+++ b/src/storage/store/block_engine.rs
@@ -2248,11 +2248,13 @@ impl BlockEngine {
                     panic!("State change commit failed: {}", err);
                 }
                 Ok(()) => {
+                    // One write for the state and the block: a node that stops between the two
+                    // would come back with the state of a height it does not know it has reached.
+                    self.stores
+                        .block_store
+                        .put_block_in_txn(&mut txn, block)
+                        .unwrap();
                     self.db.commit(txn).unwrap();
-                    let result = self.stores.block_store.put_block(block);
-                    if result.is_err() {
-                        error!("Failed to store block: {:?}", result.err());
-                    }
                     self.stores.trie.reload(&self.db).unwrap();
                     self.metrics
                         .publish_transaction_counts(&block.transactions, ProposalSource::Commit);
diff --git a/src/storage/store/engine.rs b/src/storage/store/engine.rs
index 149461b..7ff9ea1 100644
--- a/src/storage/store/engine.rs
+++ b/src/storage/store/engine.rs
@@ -2462,6 +2462,12 @@ impl ShardEngine {
         _ = self.emit_commit_metrics(&shard_chunk, &events);
 
         let now = std::time::Instant::now();
+        // One write for the state and the chunk: a node that stops between the two would come back
+        // with the state of a height it does not know it has reached.
+        self.stores
+            .shard_store
+            .put_shard_chunk_in_txn(&mut txn, shard_chunk)
+            .unwrap();
         self.db.commit(txn).unwrap();
         for mut event in events {
             event.timestamp = header.timestamp;
@@ -2469,12 +2475,6 @@ impl ShardEngine {
         }
         self.stores.trie.reload(&self.db).unwrap();
 
-        match self.stores.shard_store.put_shard_chunk(shard_chunk) {
-            Err(err) => {
-                error!("Unable to write shard chunk to store {}", err)
-            }
-            Ok(()) => {}
-        }
         let elapsed = now.elapsed();
         self.metrics
             .time_with_shard("commit_time", elapsed.as_millis() as u64);
diff --git a/src/storage/store/shard.rs b/src/storage/store/shard.rs
index 9c4ad53..8ee6024 100644
--- a/src/storage/store/shard.rs
+++ b/src/storage/store/shard.rs
@@ -3,7 +3,7 @@ use crate::core::error::HubError;
 use crate::proto;
 use crate::proto::ShardChunk;
 use crate::storage::constants::RootPrefix;
-use crate::storage::db::{PageOptions, RocksDB, RocksdbError};
+use crate::storage::db::{PageOptions, RocksDB, RocksDbTransactionBatch, RocksdbError};
 use prost::Message;
 use std::sync::Arc;
 use thiserror::Error;
@@ -154,6 +154,16 @@ pub fn get_current_header(db: &RocksDB) -> Result<Option<proto::ShardHeader>, Sh
 
 pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), ShardStorageError> {
     let mut txn = db.txn();
+    put_shard_chunk_in_txn(db, &mut txn, shard_chunk)?;
+    db.commit(txn)?;
+    Ok(())
+}
+
+fn put_shard_chunk_in_txn(
+    db: &RocksDB,
+    txn: &mut RocksDbTransactionBatch,
+    shard_chunk: &ShardChunk,
+) -> Result<(), ShardStorageError> {
     let header = shard_chunk
         .header
         .as_ref()
@@ -171,7 +181,6 @@ pub fn put_shard_chunk(db: &RocksDB, shard_chunk: &ShardChunk) -> Result<(), Sha
         txn.put(timestamp_index_key, primary_key);
     }
 
-    db.commit(txn)?;
     Ok(())
 }
 
@@ -202,6 +211,15 @@ impl ShardStore {
         put_shard_chunk(&self.db, shard_chunk)
     }
 
+    /// Adds the chunk to `txn`, so that it is written together with the state it leads to.
+    pub fn put_shard_chunk_in_txn(
+        &self,
+        txn: &mut RocksDbTransactionBatch,
+        shard_chunk: &ShardChunk,
+    ) -> Result<(), ShardStorageError> {
+        put_shard_chunk_in_txn(&self.db, txn, shard_chunk)
+    }
+
     pub fn get_first_shard_chunk(&self) -> Result<Option<ShardChunk>, ShardStorageError> {
         get_first_or_last_shard_chunk(&self.db, FirstOrLast::First)
     }
-- 
2.43.0

