From 7c86420c794bca8290bb51ee625558a4862a5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 01/44] fix: require a signature for handshake packets with a
 short source id

A handshake packet that names its source only by the short id was accepted
without any signature even when signatures are required, so that anyone could
act in the name of a known peer.
---
 src/adnl/node/receiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 6945295..8d146d1 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -450,7 +450,7 @@ impl Node {
                 raw_packet,
                 &mut packet.signature,
                 peer.id().public_key(),
-                false,
+                !from_channel && self.options.packet_signature_required,
             )?;
         }
 
-- 
2.43.0


From b406285076630f3746a68e4c53f2657b16834d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 02/44] fix: compute offsets of the parts of a split ADNL
 message correctly

The end of a part was added to the offset instead of replacing it, so that
messages of more than two parts were sent with gaps and never assembled.
---
 src/adnl/node/sender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index ebbb43a..af03dcb 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -157,7 +157,7 @@ impl Node {
                     },
                 };
 
-                *offset += len;
+                *offset = len;
                 result
             }
 
-- 
2.43.0


From 7232913180dd670afaeb262cb8f7cb55d1adc8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 03/44] fix: do not mix parts of equal messages from different
 peers

Incoming multipart transfers were identified only by the message hash, so that
equal messages sent by several peers at the same time stole each other's parts
and only one of them was delivered.
---
 src/adnl/node/mod.rs      | 2 +-
 src/adnl/node/receiver.rs | 9 +++++----
 src/adnl/transfer.rs      | 7 +++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ff1b823..fdd5420 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -131,7 +131,7 @@ pub struct Node {
     channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
-    incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
+    incoming_transfers: Arc<FastDashMap<TransferKey, Arc<Transfer>>>,
 
     /// Pending queries
     queries: Arc<QueriesCache>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 8d146d1..a09aaf2 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -194,7 +194,8 @@ impl Node {
         } = message
         {
             let transfer_id = *hash;
-            let transfer = match self.incoming_transfers.entry(transfer_id) {
+            let transfer_key: TransferKey = (*local_id, *peer_id, transfer_id);
+            let transfer = match self.incoming_transfers.entry(transfer_key) {
                 // Create new transfer state if it was a new incoming transfer
                 Entry::Vacant(entry) => {
                     let entry = entry.insert(Arc::new(Transfer::new(total_size as usize)));
@@ -219,7 +220,7 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_id).is_some() {
+                                if incoming_transfers.remove(&transfer_key).is_some() {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
@@ -242,11 +243,11 @@ impl Node {
             // Update transfer
             match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {
                 Ok(Some(message)) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     Some(message)
                 }
                 Err(error) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     return Err(error.into());
                 }
                 _ => return Ok(()),
diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 46bff45..7386c7b 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -2,10 +2,17 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 
 use sha2::Digest;
 
+use super::node_id::NodeIdShort;
 use crate::util::*;
 
 pub type TransferId = [u8; 32];
 
+/// Local peer id, remote peer id and transfer id.
+///
+/// NOTE: transfer id is just a hash of the message, so equal messages
+/// from different peers must not be mixed.
+pub type TransferKey = (NodeIdShort, NodeIdShort, TransferId);
+
 /// Multipart transfer
 ///
 /// It is used to collect multiple values of ADNL `Part` messages.
-- 
2.43.0


From bb873df297acf01f5f2902806b06ea06a6d06c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 04/44] fix: advance the window of received packets and mark
 its first packet

---
 src/util/packets_history.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 5829f1a..67f5650 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -91,7 +91,7 @@ impl PacketsHistory {
             let index_masked = index & INDEX_MASK;
             let index_normalized = index & !INDEX_MASK;
 
-            if index_normalized > seqno_normalized + INDEX_MASK + 1 {
+            if index_normalized > seqno_normalized.saturating_add(INDEX_MASK + 1) {
                 tracing::debug!(seqno, index_normalized, "peer packet is too old");
                 return false;
             }
@@ -125,7 +125,17 @@ impl PacketsHistory {
                         continue;
                     }
 
-                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+                    let bits = mask.bits[mask_offset].fetch_or(mask_bit, Ordering::AcqRel);
+                    if bits & mask_bit != 0 {
+                        // The same packet was delivered concurrently
+                        let _ = mask.index.compare_exchange(
+                            IN_TRANSIT,
+                            index,
+                            Ordering::Release,
+                            Ordering::Relaxed,
+                        );
+                        return false;
+                    }
 
                     index
                 }
@@ -155,7 +165,11 @@ impl PacketsHistory {
                         }
                     }
 
-                    index_normalized
+                    // Mark packet as delivered in the window which was moved to it
+                    let mask_offset = HISTORY_SIZE / 2 + seqno_masked as usize / 64;
+                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+
+                    seqno_normalized
                 }
             };
 
-- 
2.43.0


From 850727898c5a03a7c1f5a17d0160a8a532175654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 05/44] fix: raise the timeout of ADNL queries to the
 configured minimum

---
 src/adnl/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index fdd5420..a6990b0 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -479,7 +479,7 @@ impl Node {
             .get(peer_id)
             .map(|entry| entry.value().clone());
 
-        let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
+        let timeout = self.compute_query_timeout(timeout);
         let answer = tokio::time::timeout(Duration::from_millis(timeout), pending_query.wait())
             .await
             .ok()
-- 
2.43.0


From bfecce8cfd409a05f884338f9954765c50fd2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 06/44] fix: do not time out a newer transfer of the same ADNL
 message

---
 src/adnl/node/receiver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index a09aaf2..0b6b9f4 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -220,7 +220,13 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_key).is_some() {
+                                // NOTE: there could be another transfer with the same key already
+                                if incoming_transfers
+                                    .remove_if(&transfer_key, |_, value| {
+                                        Arc::ptr_eq(value, &transfer)
+                                    })
+                                    .is_some()
+                                {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
-- 
2.43.0


From b306b53e7e154d93976e22a305977cb21e7d323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 07/44] fix: keep channels of different local ids apart

---
 src/adnl/node/mod.rs      | 10 ++++++----
 src/adnl/node/receiver.rs |  4 ++--
 src/adnl/node/sender.rs   |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index a6990b0..12f6018 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -128,7 +128,9 @@ pub struct Node {
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
     /// Channels table used to fast search when sending messages
-    channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
+    ///
+    /// NOTE: the same remote peer can have separate channels with different local ids
+    channels_by_peers: FastDashMap<(NodeIdShort, NodeIdShort), Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
     incoming_transfers: Arc<FastDashMap<TransferKey, Arc<Transfer>>>,
@@ -358,7 +360,7 @@ impl Node {
         let peers = self.get_peers(local_id)?;
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
@@ -476,7 +478,7 @@ impl Node {
 
         let channel = self
             .channels_by_peers
-            .get(peer_id)
+            .get(&(*local_id, *peer_id))
             .map(|entry| entry.value().clone());
 
         let timeout = self.compute_query_timeout(timeout);
@@ -526,7 +528,7 @@ impl Node {
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 0b6b9f4..9ea0254 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -442,7 +442,7 @@ impl Node {
 
         let peers = self.get_peers(local_id)?;
         let peer = if from_channel {
-            if self.channels_by_peers.contains_key(&peer_id) {
+            if self.channels_by_peers.contains_key(&(*local_id, peer_id)) {
                 peers.get(&peer_id)
             } else {
                 return Err(AdnlPacketError::UnknownChannel.into());
@@ -526,7 +526,7 @@ impl Node {
         };
         let peer = peer.value();
 
-        match self.channels_by_peers.entry(*peer_id) {
+        match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
 
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index af03dcb..d10154c 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -74,7 +74,7 @@ impl Node {
 
         // Get local key
         let local_key = self.keystore.key_by_id(local_id)?;
-        let channel = self.channels_by_peers.get(peer_id);
+        let channel = self.channels_by_peers.get(&(*local_id, *peer_id));
         let mut force_handshake = false;
         let (additional_size, additional_message) = match &channel {
             Some(channel) if channel.ready() => (0, None),
-- 
2.43.0


From 90469d53d73a5a98b8286c9c9c87b97493893b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 08/44] fix: announce the reinit date of the reset peer and
 compare with it

---
 src/adnl/node/receiver.rs | 3 ++-
 src/adnl/node/sender.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 9ea0254..fc95966 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -466,7 +466,8 @@ impl Node {
             target: local_reinit_date,
         }) = packet.reinit_dates
         {
-            let expected_local_reinit_date = local_reinit_date.cmp(&self.start_time);
+            let expected_local_reinit_date =
+                local_reinit_date.cmp(&peer.receiver_state().reinit_date());
             if expected_local_reinit_date == Ordering::Greater {
                 return Err(AdnlPacketError::DstReinitDateTooNew.into());
             }
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index d10154c..4e942de 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -261,7 +261,8 @@ impl Node {
             reinit_dates: match signer {
                 MessageSigner::Channel { .. } => None,
                 MessageSigner::Random(_) => Some(proto::adnl::ReinitDates {
-                    local: self.start_time,
+                    // NOTE: differs from the `start_time` after the peer was reset
+                    local: peer.receiver_state().reinit_date(),
                     target: peer.sender_state().reinit_date(),
                 }),
             },
-- 
2.43.0


From db8d50ca0442a877d3c2519931e61aeeb7b88553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 09/44] fix: do not reset a newer channel because of queries
 over the old one

---
 src/adnl/node/mod.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 12f6018..6ecb78e 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -490,7 +490,7 @@ impl Node {
         if answer.is_none() {
             if let Some(channel) = channel {
                 if channel.update_drop_timeout(now(), self.options.channel_reset_timeout_sec) {
-                    self.reset_peer(local_id, peer_id)?;
+                    self.reset_peer(local_id, peer_id, &channel)?;
                 }
             }
         }
@@ -521,18 +521,29 @@ impl Node {
         }
     }
 
-    fn reset_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<()> {
+    fn reset_peer(
+        &self,
+        local_id: &NodeIdShort,
+        peer_id: &NodeIdShort,
+        channel: &Arc<Channel>,
+    ) -> Result<()> {
         let peers = self.get_peers(local_id)?;
         let mut peer = peers.get_mut(peer_id).ok_or(NodeError::UnknownPeer)?;
 
+        // NOTE: the channel could be already replaced with a new one
+        let removed = match self
+            .channels_by_peers
+            .remove_if(&(*local_id, *peer_id), |_, current| {
+                Arc::ptr_eq(current, channel)
+            }) {
+            Some((_, removed)) => removed,
+            None => return Ok(()),
+        };
+
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
-        self.channels_by_peers
-            .remove(&(*local_id, *peer_id))
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+        self.channels_by_id.remove(removed.ordinary_channel_in_id());
+        self.channels_by_id.remove(removed.priority_channel_in_id());
 
         peer.reset();
 
-- 
2.43.0


From ce015fd14b428f43b31aa1cb1914c2009a195d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 10/44] fix: ignore empty and repeated parts of an ADNL
 transfer

---
 src/adnl/transfer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 7386c7b..2e104fa 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -55,11 +55,21 @@ impl Transfer {
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
+        use dashmap::mapref::entry::Entry;
+
+        // Empty parts don't make any progress
         let len = data.len();
-        if self.parts.insert(offset, data).is_some() {
+        if len == 0 {
             return Ok(None);
         }
 
+        match self.parts.entry(offset) {
+            Entry::Vacant(entry) => {
+                entry.insert(data);
+            }
+            Entry::Occupied(_) => return Ok(None),
+        }
+
         // Increase received length.
         // This part heavily relies on ordering, so hope that it works as expected
         self.received_len.fetch_add(len, Ordering::Release);
-- 
2.43.0


From afd006f7d640b86c163b51952b2aedb22c6e0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 11/44] fix: process the remaining messages of a packet after a
 failed one

---
 src/adnl/node/receiver.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index fc95966..8eb292a 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -159,15 +159,20 @@ impl Node {
 
         // Process message(s)
         for message in packet.messages {
-            self.process_message(
-                &local_id,
-                &peer_id,
-                message,
-                message_subscribers,
-                query_subscribers,
-                priority,
-            )
-            .await?;
+            // NOTE: a failed message must not affect other messages of this packet
+            if let Err(error) = self
+                .process_message(
+                    &local_id,
+                    &peer_id,
+                    message,
+                    message_subscribers,
+                    query_subscribers,
+                    priority,
+                )
+                .await
+            {
+                tracing::trace!(%local_id, %peer_id, ?error, "failed to process message");
+            }
         }
 
         // Done
-- 
2.43.0


From 28e84ee1a5f0852ed822289804e060062bbdc539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 12/44] fix: do not overflow the number of random peers to
 select

---
 src/adnl/peers_set.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index a1fc7b8..d6c869b 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -69,7 +69,11 @@ impl PeersSet {
 
         let items = state.index.choose_multiple(
             &mut fast_thread_rng(),
-            if except.is_some() { amount + 1 } else { amount } as usize,
+            if except.is_some() {
+                amount.saturating_add(1)
+            } else {
+                amount
+            } as usize,
         );
 
         match except {
-- 
2.43.0


From a9f200733f46ed3336712458ffe0f0a224047faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 13/44] fix: do not register the tag of a rejected duplicate
 key

---
 src/adnl/keystore.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adnl/keystore.rs b/src/adnl/keystore.rs
index 6181295..3418d98 100644
--- a/src/adnl/keystore.rs
+++ b/src/adnl/keystore.rs
@@ -51,16 +51,14 @@ impl Keystore {
         let (_, short_id) = secret_key.compute_node_ids();
 
         match self.tags.entry(tag) {
-            hash_map::Entry::Vacant(entry) => {
-                entry.insert(short_id);
-                match self.keys.entry(short_id) {
-                    hash_map::Entry::Vacant(entry) => {
-                        entry.insert(Arc::new(secret_key.into()));
-                        Ok(short_id)
-                    }
-                    hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            hash_map::Entry::Vacant(tag_entry) => match self.keys.entry(short_id) {
+                hash_map::Entry::Vacant(entry) => {
+                    entry.insert(Arc::new(secret_key.into()));
+                    tag_entry.insert(short_id);
+                    Ok(short_id)
                 }
-            }
+                hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            },
             hash_map::Entry::Occupied(entry) => {
                 if entry.get() == &short_id {
                     Ok(short_id)
-- 
2.43.0


From b425443c54c4b597950c491e3b8e411c305dd5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 14/44] fix: count RLDP symbols of each part of a transfer
 separately

---
 src/rldp/outgoing_transfer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 5df3389..a56a42e 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -51,6 +51,9 @@ impl OutgoingTransfer {
 
         self.current_message_part = part as u32;
 
+        // Symbol ids are counted separately for each part
+        self.state.reset_seqno();
+
         let chunk_size = std::cmp::min(total - processed, SLICE);
         let encoder = self.encoder.insert(RaptorQEncoder::with_data(
             &self.data[processed..processed + chunk_size],
@@ -147,6 +150,11 @@ impl OutgoingTransferState {
         self.has_reply.store(true, Ordering::Release);
     }
 
+    pub fn reset_seqno(&self) {
+        self.seqno_out.store(0, Ordering::Release);
+        self.seqno_in.store(0, Ordering::Release);
+    }
+
     pub fn seqno_out(&self) -> u32 {
         self.seqno_out.load(Ordering::Acquire)
     }
-- 
2.43.0


From d6f252291272b9cad06fa55c04740bfede2e5106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 15/44] fix: number RLDP repair symbols after all source
 symbols

---
 src/rldp/encoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rldp/encoder.rs b/src/rldp/encoder.rs
index 00ed613..0e82c20 100644
--- a/src/rldp/encoder.rs
+++ b/src/rldp/encoder.rs
@@ -36,7 +36,12 @@ impl RaptorQEncoder {
             packet
         } else {
             let encoders = self.engine.get_block_encoders();
-            let packet = match encoders[self.encoder_index].repair_packets(*seqno, 1).pop() {
+            // NOTE: repair symbols are numbered after all source symbols
+            let repair_seqno = std::cmp::max(*seqno, self.params.packet_count);
+            let packet = match encoders[self.encoder_index]
+                .repair_packets(repair_seqno, 1)
+                .pop()
+            {
                 Some(packet) => packet,
                 None => return Err(EncoderError::FailedToEncode.into()),
             };
-- 
2.43.0


From f77e2ae952be1e6218211635efe87f53a68e0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 16/44] fix: accept confirmations of RLDP symbols sent outside
 of the window

---
 src/rldp/outgoing_transfer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index a56a42e..4b6af47 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -81,12 +81,11 @@ impl OutgoingTransfer {
         let seqno_in = self.state.seqno_in();
 
         let mut next_seqno_out = seqno_out;
-        if seqno_out - seqno_in <= WINDOW {
-            if previous_seqno_out == seqno_out {
-                next_seqno_out += 1;
-            }
-            self.state.set_seqno_out(next_seqno_out);
+        if seqno_out.saturating_sub(seqno_in) <= WINDOW && previous_seqno_out == seqno_out {
+            next_seqno_out += 1;
         }
+        // NOTE: symbols outside of the window were sent as well, so they can be confirmed
+        self.state.set_seqno_out(next_seqno_out);
 
         tl_proto::serialize_into(
             proto::rldp::MessagePart::MessagePart {
-- 
2.43.0


From dccb108ccd7aef5299f5947e2e7d3b31afb5bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 17/44] fix: reject FEC parameters that cannot be decoded

---
 src/overlay/overlay.rs        |  9 +++++++--
 src/rldp/decoder.rs           | 27 ++++++++++++++++++++++++---
 src/rldp/incoming_transfer.rs | 14 +++++++++++---
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7a0769e..9a999a8 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -964,6 +964,11 @@ impl Overlay {
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
+        let mut decoder = match RaptorQDecoder::with_params(fec_type) {
+            Some(decoder) => decoder,
+            None => return Err(OverlayError::InvalidFecParameters.into()),
+        };
+
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -979,8 +984,6 @@ impl Overlay {
         // Spawn packets receiver
         let overlay = self.clone();
         tokio::spawn(async move {
-            let mut decoder = RaptorQDecoder::with_params(fec_type);
-
             // For each fec broadcast packet
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
@@ -1421,6 +1424,8 @@ enum OverlayError {
     DataSizeMismatch,
     #[error("Data hash mismatch")]
     DataHashMismatch,
+    #[error("Invalid FEC parameters")]
+    InvalidFecParameters,
 }
 
 const BROADCAST_FLAG_ANY_SENDER: u32 = 1; // Any sender
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 984f22b..231223b 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -9,18 +9,31 @@ pub struct RaptorQDecoder {
 }
 
 impl RaptorQDecoder {
-    pub fn with_params(params: RaptorQFecType) -> Self {
-        Self {
+    /// Creates new decoder. Returns `None` if there can't be a transfer with these parameters
+    pub fn with_params(params: RaptorQFecType) -> Option<Self> {
+        if !(MIN_SYMBOL_LEN..=u16::MAX as u32).contains(&params.packet_len)
+            || params.packet_len % SYMBOL_ALIGNMENT != 0
+            || params.total_len == 0
+            || (params.total_len - 1) / params.packet_len >= MAX_SOURCE_SYMBOLS
+        {
+            return None;
+        }
+
+        Some(Self {
             engine: Decoder::new(ObjectTransmissionInformation::with_defaults(
                 params.total_len as u64,
                 params.packet_len as u16,
             )),
             params,
             seqno: 0,
-        }
+        })
     }
 
     pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
+        if seqno > MAX_SYMBOL_ID || data.len() != self.params.packet_len as usize {
+            return None;
+        }
+
         let packet = EncodingPacket::new(PayloadId::new(0, seqno), data);
         self.seqno = seqno;
         self.engine.decode(packet)
@@ -34,3 +47,11 @@ impl RaptorQDecoder {
         self.seqno
     }
 }
+
+/// Symbols consist of aligned sub-symbols
+const SYMBOL_ALIGNMENT: u32 = 8;
+const MIN_SYMBOL_LEN: u32 = 64;
+/// The whole transfer must fit into one source block
+const MAX_SOURCE_SYMBOLS: u32 = 56403;
+/// Encoding symbol id is a 24-bit unsigned int, and it is shifted by the number of padding symbols
+const MAX_SYMBOL_ID: u32 = 0xffffff - MAX_SOURCE_SYMBOLS;
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 7607080..7235d3c 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -78,9 +78,15 @@ impl IncomingTransfer {
                     return Err(IncomingTransferError::PacketParametersMismatch.into())
                 }
                 Some(decoder) => decoder,
-                None => self
-                    .decoder
-                    .get_or_insert_with(|| RaptorQDecoder::with_params(fec_type)),
+                None => {
+                    if fec_type.total_len as usize > total_size - self.data.len() {
+                        return Err(IncomingTransferError::TooBigTransferSize.into());
+                    }
+                    match RaptorQDecoder::with_params(fec_type) {
+                        Some(decoder) => self.decoder.insert(decoder),
+                        None => return Err(IncomingTransferError::InvalidFecParameters.into()),
+                    }
+                }
             },
             std::cmp::Ordering::Less => {
                 tl_proto::serialize_into(
@@ -172,6 +178,8 @@ enum IncomingTransferError {
     TotalSizeMismatch,
     #[error("Packet parameters mismatch")]
     PacketParametersMismatch,
+    #[error("Invalid FEC parameters")]
+    InvalidFecParameters,
     #[error("Too big size for RLDP transfer")]
     TooBigTransferSize,
 }
-- 
2.43.0


From 6e85b168555ba98a886845cd1639952c6bbe59d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 18/44] fix: ignore RLDP completions of an impossible part

---
 src/rldp/transfers_cache.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d6cb17d..9904c01 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -255,8 +255,10 @@ impl TransfersCache {
             }
             proto::rldp::MessagePart::Complete { transfer_id, part } => {
                 if let Some(transfer) = self.transfers.get(transfer_id) {
-                    if let RldpTransfer::Outgoing(state) = transfer.value() {
-                        state.set_part(part + 1);
+                    if let (RldpTransfer::Outgoing(state), Some(next_part)) =
+                        (transfer.value(), part.checked_add(1))
+                    {
+                        state.set_part(next_part);
                     }
                 }
             }
-- 
2.43.0


From 86fa7ff6a52fc9841eff1a352397eba2532453e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 19/44] fix: do not bring back a removed RLDP transfer

---
 src/rldp/transfers_cache.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 9904c01..c2b6975 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -333,7 +333,12 @@ impl TransfersCache {
         let interval = self.query_options.completion_interval();
         tokio::spawn(async move {
             tokio::time::sleep(interval).await;
-            transfers.insert(transfer_id, RldpTransfer::Done);
+            // NOTE: transfer could have been completed and removed by this time
+            if let Some(mut transfer) = transfers.get_mut(&transfer_id) {
+                if let RldpTransfer::Incoming(_) = transfer.value() {
+                    *transfer = RldpTransfer::Done;
+                }
+            }
         });
 
         // Done
-- 
2.43.0


From 487c7676a7203d2d77fe3d04f333f216518dd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 20/44] fix: clear RLDP answers which were not sent

---
 src/rldp/transfers_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index c2b6975..e6bc603 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -452,7 +452,10 @@ impl IncomingContext {
         };
 
         // Send answer
-        outgoing_context.send(query_options, None).await?;
+        // NOTE: created transfer must be cleared even if it was not sent
+        if let Err(e) = outgoing_context.send(query_options, None).await {
+            tracing::warn!("failed to send RLDP answer: {e:?}");
+        }
 
         // Done
         Ok(Some(outgoing_transfer_id))
-- 
2.43.0


From 2d9fb94793c84d195a95bd41817aca7512ff6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 21/44] fix: complete transfers of RLDP queries which were
 dropped

---
 src/rldp/transfers_cache.rs | 60 ++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index e6bc603..583d68c 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -66,6 +66,15 @@ impl TransfersCache {
         self.transfers
             .insert(incoming_transfer_id, RldpTransfer::Incoming(parts_tx));
 
+        // Transfers are completed even if the query is not polled until the end
+        let _completion = QueryCompletion {
+            transfers: self.transfers.clone(),
+            runtime: tokio::runtime::Handle::current(),
+            outgoing_transfer_id,
+            incoming_transfer_id,
+            interval: self.query_options.completion_interval(),
+        };
+
         // Prepare contexts
         let outgoing_context = OutgoingContext {
             adnl: adnl.clone(),
@@ -133,28 +142,9 @@ impl TransfersCache {
                 }
             }
             Ok((false, roundtrip)) => Ok((None, roundtrip)),
-            Err(e) => {
-                // Reset transfer entries
-                self.transfers
-                    .insert(outgoing_transfer_id, RldpTransfer::Done);
-                Err(e)
-            }
+            Err(e) => Err(e),
         };
 
-        self.transfers
-            .insert(incoming_transfer_id, RldpTransfer::Done);
-
-        // Clear transfers in background
-        tokio::spawn({
-            let transfers = self.transfers.clone();
-            let interval = self.query_options.completion_interval();
-            async move {
-                tokio::time::sleep(interval).await;
-                transfers.remove(&outgoing_transfer_id);
-                transfers.remove(&incoming_transfer_id);
-            }
-        });
-
         // Done
         result
     }
@@ -346,6 +336,36 @@ impl TransfersCache {
     }
 }
 
+/// Marks transfers of the query as done when it ends and removes them later
+struct QueryCompletion {
+    transfers: Arc<FastDashMap<TransferId, RldpTransfer>>,
+    runtime: tokio::runtime::Handle,
+    outgoing_transfer_id: TransferId,
+    incoming_transfer_id: TransferId,
+    interval: Duration,
+}
+
+impl Drop for QueryCompletion {
+    fn drop(&mut self) {
+        let outgoing_transfer_id = self.outgoing_transfer_id;
+        let incoming_transfer_id = self.incoming_transfer_id;
+
+        self.transfers
+            .insert(outgoing_transfer_id, RldpTransfer::Done);
+        self.transfers
+            .insert(incoming_transfer_id, RldpTransfer::Done);
+
+        // Clear transfers in background
+        let transfers = self.transfers.clone();
+        let interval = self.interval;
+        self.runtime.spawn(async move {
+            tokio::time::sleep(interval).await;
+            transfers.remove(&outgoing_transfer_id);
+            transfers.remove(&incoming_transfer_id);
+        });
+    }
+}
+
 enum RldpTransfer {
     Incoming(MessagePartsTx),
     Outgoing(Arc<OutgoingTransferState>),
-- 
2.43.0


From a91df9a431caf4d7d82a456c57540889908897e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:56 +0000
Subject: [PATCH 22/44] fix: do not merge new overlay nodes into an expired
 list

---
 src/dht/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index 5c82479..76abd55 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -154,7 +154,7 @@ impl Storage {
             Entry::Occupied(mut entry) => {
                 let value = {
                     let old_nodes = match entry.get().ttl {
-                        old_ttl if old_ttl < now() => None,
+                        old_ttl if old_ttl <= now() => None,
                         old_ttl if old_ttl > value.ttl => return Ok(false),
                         _ => Some(deserialize_overlay_nodes(&entry.get().value)?),
                     };
-- 
2.43.0


From 48855ce593303b3fda90bb8b8c389ebaabd296a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 23/44] fix: verify the key and the update rule of found DHT
 values

---
 src/dht/entry.rs   |  2 +-
 src/dht/node.rs    | 19 ++++++++++++---
 src/dht/storage.rs | 61 +++++++++++++++++++++++++++++++---------------
 src/dht/streams.rs |  6 ++++-
 4 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index 2d99158..f4cdda8 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -89,7 +89,7 @@ impl<'a> Entry<'a> {
         let query = tl_proto::serialize(proto::rpc::DhtFindValue { key: &key_id, k: 6 }).into();
 
         match self.dht.query_raw(peer_id, query).await? {
-            Some(result) => self.dht.parse_value_result(&result),
+            Some(result) => self.dht.parse_value_result(&key_id, &result),
             None => Ok(None),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index ec0c8b0..353fa13 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -14,7 +14,7 @@ use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
 use super::buckets::Buckets;
 use super::entry::Entry;
 use super::futures::StoreValue;
-use super::storage::{Storage, StorageOptions};
+use super::storage::{verify_overlay_nodes_value, Storage, StorageKeyId, StorageOptions};
 use super::{KEY_ADDRESS, KEY_NODES, MAX_DHT_PEERS};
 use crate::adnl;
 use crate::overlay;
@@ -493,8 +493,11 @@ impl Node {
         result
     }
 
+    /// Parses the response for the value query. Found value must be stored by the
+    /// requested key and must satisfy its update rule
     pub(super) fn parse_value_result<T>(
         &self,
+        key_id: &StorageKeyId,
         result: &[u8],
     ) -> Result<Option<(proto::dht::KeyDescriptionOwned, T)>>
     where
@@ -502,8 +505,16 @@ impl Node {
     {
         match tl_proto::deserialize::<proto::dht::ValueResult>(result)? {
             proto::dht::ValueResult::ValueFound(BoxedWrapper(mut value)) => {
-                if value.key.update_rule == proto::dht::UpdateRule::Signature {
-                    verify_signed_dht_value(&mut value)?;
+                if &tl_proto::hash_as_boxed(value.key.key) != key_id {
+                    return Err(DhtNodeError::InvalidValueKey.into());
+                }
+
+                match value.key.update_rule {
+                    proto::dht::UpdateRule::Signature => verify_signed_dht_value(&mut value)?,
+                    proto::dht::UpdateRule::OverlayNodes => verify_overlay_nodes_value(&value)?,
+                    proto::dht::UpdateRule::Anybody => {
+                        return Err(DhtNodeError::UnsupportedUpdateRule.into())
+                    }
                 }
 
                 let parsed = tl_proto::deserialize(value.value)?;
@@ -765,4 +776,6 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Unsupported update rule")]
+    UnsupportedUpdateRule,
 }
diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index 76abd55..4027468 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -116,25 +116,7 @@ impl Storage {
     fn insert_overlay_nodes(&self, value: proto::dht::Value) -> Result<bool> {
         use dashmap::mapref::entry::Entry;
 
-        if !value.signature.is_empty() || !value.key.signature.is_empty() {
-            return Err(StorageError::InvalidSignatureValue.into());
-        }
-
-        let overlay_id = match value.key.id {
-            everscale_crypto::tl::PublicKey::Overlay { .. } => {
-                overlay::IdShort::from(tl_proto::hash(value.key.id))
-            }
-            _ => return Err(StorageError::InvalidKeyDescription.into()),
-        };
-
-        let required_key = proto::dht::Key {
-            id: overlay_id.as_slice(),
-            name: KEY_NODES.as_ref(),
-            idx: 0,
-        };
-        if value.key.key != required_key {
-            return Err(StorageError::InvalidDhtKey.into());
-        }
+        let overlay_id = verify_overlay_nodes_key(&value)?;
 
         let mut new_nodes = deserialize_overlay_nodes(value.value)?;
         new_nodes.retain(|node| {
@@ -171,6 +153,47 @@ impl Storage {
     }
 }
 
+/// Verifies the value with overlay nodes: its key, absence of signatures and each node
+pub fn verify_overlay_nodes_value(value: &proto::dht::Value<'_>) -> Result<()> {
+    let overlay_id = verify_overlay_nodes_key(value)?;
+
+    let nodes = deserialize_overlay_nodes(value.value)?;
+    if nodes.is_empty() {
+        return Err(StorageError::EmptyOverlayNodes.into());
+    }
+
+    for node in &nodes {
+        overlay_id.verify_overlay_node(node)?;
+    }
+
+    Ok(())
+}
+
+/// Checks everything in the value with overlay nodes except nodes
+fn verify_overlay_nodes_key(value: &proto::dht::Value<'_>) -> Result<overlay::IdShort> {
+    if !value.signature.is_empty() || !value.key.signature.is_empty() {
+        return Err(StorageError::InvalidSignatureValue.into());
+    }
+
+    let overlay_id = match value.key.id {
+        everscale_crypto::tl::PublicKey::Overlay { .. } => {
+            overlay::IdShort::from(tl_proto::hash(value.key.id))
+        }
+        _ => return Err(StorageError::InvalidKeyDescription.into()),
+    };
+
+    let required_key = proto::dht::Key {
+        id: overlay_id.as_slice(),
+        name: KEY_NODES.as_ref(),
+        idx: 0,
+    };
+    if value.key.key != required_key {
+        return Err(StorageError::InvalidDhtKey.into());
+    }
+
+    Ok(overlay_id)
+}
+
 // Merges old and new overlay nodes and returns updated value
 fn make_overlay_nodes_value<const N: usize>(
     value: proto::dht::Value<'_>,
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index dbff243..a250e6b 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -10,12 +10,14 @@ use tl_proto::TlRead;
 
 use super::node::Node;
 use super::peers_iter::PeersIter;
+use super::storage::StorageKeyId;
 use crate::proto;
 
 /// Stream for the `DhtNode::values` method.
 #[must_use = "streams do nothing unless polled"]
 pub struct DhtValuesStream<T> {
     dht: Arc<Node>,
+    key_id: StorageKeyId,
     query: Bytes,
     batch_len: Option<usize>,
     known_peers_version: u64,
@@ -43,6 +45,7 @@ where
 
         Self {
             dht,
+            key_id,
             query,
             batch_len,
             known_peers_version,
@@ -70,11 +73,12 @@ where
         // Spawn at most `max_tasks` queries
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
+            let key_id = self.key_id;
             let query = self.query.clone();
 
             self.futures.push(Box::pin(async move {
                 match dht.query_raw(&peer_id, query).await {
-                    Ok(Some(result)) => match dht.parse_value_result::<T>(&result) {
+                    Ok(Some(result)) => match dht.parse_value_result::<T>(&key_id, &result) {
                         Ok(Some(value)) => Some(value),
                         Ok(None) => None,
                         Err(e) => {
-- 
2.43.0


From cf5a0260f0e4e74f380e29d4f8ba58ff500b5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 24/44] fix: stop searching overlay nodes when there are no new
 ones

---
 src/dht/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 353fa13..184d63b 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -320,6 +320,11 @@ impl Node {
                 });
             }
 
+            // Stop if there are no nodes which were not processed yet
+            if futures.is_empty() {
+                break;
+            }
+
             // Wait all results
             while let Some((ip, node)) = futures.next().await {
                 match ip {
-- 
2.43.0


From 1841dbb6f4a81e2449c54734d57315f2f2703017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 25/44] fix: do not return DHT nodes when none are requested

---
 src/dht/buckets.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dht/buckets.rs b/src/dht/buckets.rs
index 4d090d2..a237434 100644
--- a/src/dht/buckets.rs
+++ b/src/dht/buckets.rs
@@ -49,6 +49,9 @@ impl Buckets {
         let key2: &[u8; 32] = peer_id.borrow();
 
         let mut nodes = Vec::new();
+        if k == 0 {
+            return proto::dht::NodesOwned { nodes };
+        }
 
         // Iterate over buckets
         'outer: for i in 0..32 {
-- 
2.43.0


From 9320b32725b7a4fd1eb11fe1166ed98dcaca4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 26/44] fix: penalize DHT peers for queries without an answer

---
 src/dht/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 184d63b..e602c3e 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -459,7 +459,8 @@ impl Node {
         for<'a> A: TlRead<'a, Repr = tl_proto::Boxed> + 'static,
     {
         let result = self.adnl.query(&self.local_id, peer_id, query, None).await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -477,7 +478,8 @@ impl Node {
                 Some(self.options.query_timeout_ms),
             )
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -494,7 +496,8 @@ impl Node {
             .adnl
             .query_with_prefix::<Q, A>(&self.local_id, peer_id, &self.query_prefix, query, None)
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -638,7 +641,7 @@ impl NodeState {
                     *entry.get_mut() += 2;
                 }
                 Entry::Vacant(entry) => {
-                    entry.insert(0);
+                    entry.insert(2);
                 }
             }
         }
-- 
2.43.0


From 75e6bbf64ba3d7a420ef01061174c77fcef517ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 27/44] fix: skip invalid records while searching for DHT nodes

---
 src/dht/node.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index e602c3e..665f8cd 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -258,7 +258,10 @@ impl Node {
             match res {
                 Ok(nodes) => {
                     for node in nodes {
-                        node_count += self.add_dht_peer(node)?.is_some() as usize;
+                        match self.add_dht_peer(node) {
+                            Ok(peer) => node_count += peer.is_some() as usize,
+                            Err(e) => tracing::warn!("failed to add DHT peer: {e:?}"),
+                        }
                     }
                 }
                 Err(e) => {
-- 
2.43.0


From fc47800c0379ad8abcb2d1bd13004479bd3312b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 28/44] fix: keep the newest record of a known DHT peer

---
 src/dht/node.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 665f8cd..edd62b4 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -623,10 +623,9 @@ impl NodeState {
             return Ok(None);
         }
 
-        // Add new peer to the bucket
-        if self.known_peers.insert(peer_id) {
-            self.buckets.insert(&peer_id, peer);
-        } else {
+        // Add new peer to the bucket or update its record with a newer one
+        self.buckets.insert(&peer_id, peer);
+        if !self.known_peers.insert(peer_id) {
             self.set_good_peer(&peer_id);
         }
 
-- 
2.43.0


From 388210bf23bfd4871eeff4729f54e7447d0beb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 29/44] fix: do not skip new peers while searching for DHT
 values

---
 src/dht/peers_iter.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index b755a9e..0f83143 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -60,16 +60,14 @@ impl PeersIter {
 
     fn next_known_peer(&mut self, dht: &Node) -> Option<adnl::NodeIdShort> {
         loop {
-            let peer_id = dht.known_peers().get(self.index);
+            // NOTE: the index must not be moved beyond the last peer,
+            // otherwise the next new peer will be skipped
+            let peer_id = dht.known_peers().get(self.index)?;
             self.index += 1;
 
-            if let Some(peer) = &peer_id {
-                if dht.is_bad_peer(peer) {
-                    continue;
-                }
+            if !dht.is_bad_peer(&peer_id) {
+                break Some(peer_id);
             }
-
-            break peer_id;
         }
     }
 }
-- 
2.43.0


From e86022d106e2fdfc5d2eb57c61c7d5be7d88ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 30/44] fix: reject nested prefixes of DHT queries

---
 src/dht/node.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index edd62b4..8c01cd1 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -726,7 +726,9 @@ impl QuerySubscriber for NodeState {
                 let proto::rpc::DhtQuery { node } = <_>::read_from(&query, &mut offset)?;
                 let constructor = u32::read_from(&query, &mut std::convert::identity(offset))?;
 
-                if offset >= query.len() {
+                // NOTE: nested prefixes are not allowed, otherwise the depth
+                // of recursion will be controlled by the remote peer
+                if offset >= query.len() || constructor == proto::rpc::DhtQuery::TL_ID {
                     return Err(DhtNodeError::UnexpectedQuery.into());
                 }
 
-- 
2.43.0


From b253dbcc17f699f5f864323f8255701091b62d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 31/44] fix: do not overflow the expiration date of broadcasts

---
 src/overlay/overlay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 9a999a8..512202f 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1133,7 +1133,7 @@ impl Overlay {
     }
 
     fn is_broadcast_outdated(&self, date: u32) -> bool {
-        date + (self.options.broadcast_timeout_sec as u32) < now()
+        (date as u64).saturating_add(self.options.broadcast_timeout_sec) < now() as u64
     }
 
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
-- 
2.43.0


From 7bfd950874af1dfb2b3618915cdb0ff1c7e88a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 32/44] fix: cover the flags of ordinary broadcasts with their
 signature

---
 src/overlay/overlay.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 512202f..599ef15 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -561,8 +561,12 @@ impl Overlay {
 
         let broadcast_data = match compression::decompress(broadcast.data) {
             Some(decompressed) => {
-                let broadcast_to_sign =
-                    make_broadcast_to_sign(&decompressed, broadcast.date, source.as_ref());
+                let broadcast_to_sign = make_broadcast_to_sign(
+                    &decompressed,
+                    broadcast.date,
+                    broadcast.flags,
+                    source.as_ref(),
+                );
                 match node_id.verify(&broadcast_to_sign, broadcast.signature) {
                     Ok(()) => {
                         let broadcast_id = broadcast_to_sign.compute_broadcast_id();
@@ -580,8 +584,12 @@ impl Overlay {
         let (broadcast_id, data) = match broadcast_data {
             Some((id, data)) => (id, data),
             None => {
-                let broadcast_to_sign =
-                    make_broadcast_to_sign(broadcast.data, broadcast.date, source.as_ref());
+                let broadcast_to_sign = make_broadcast_to_sign(
+                    broadcast.data,
+                    broadcast.date,
+                    broadcast.flags,
+                    source.as_ref(),
+                );
                 node_id.verify(&broadcast_to_sign, broadcast.signature)?;
 
                 let broadcast_id = broadcast_to_sign.compute_broadcast_id();
@@ -726,7 +734,8 @@ impl Overlay {
         target: BroadcastTarget,
     ) -> OutgoingBroadcastInfo {
         let date = now();
-        let broadcast_to_sign = make_broadcast_to_sign(&data, date, None);
+        let broadcast_to_sign =
+            make_broadcast_to_sign(&data, date, BROADCAST_FLAG_ANY_SENDER, None);
         let broadcast_id = broadcast_to_sign.compute_broadcast_id();
         if !self.create_broadcast(broadcast_id) {
             tracing::warn!(
@@ -1287,6 +1296,7 @@ impl OverlayBroadcastToSign {
 fn make_broadcast_to_sign(
     data: &[u8],
     date: u32,
+    flags: u32,
     source: Option<&adnl::NodeIdShort>,
 ) -> OverlayBroadcastToSign {
     const BROADCAST_ID: u32 = tl_proto::id!("overlay.broadcast.id", scheme = "scheme.tl");
@@ -1295,7 +1305,7 @@ fn make_broadcast_to_sign(
     broadcast_hash.update(BROADCAST_ID.to_le_bytes());
     broadcast_hash.update(source.map(adnl::NodeIdShort::as_slice).unwrap_or(&[0; 32]));
     broadcast_hash.update(sha2::Sha256::digest(data).as_slice());
-    broadcast_hash.update(BROADCAST_FLAG_ANY_SENDER.to_le_bytes());
+    broadcast_hash.update(flags.to_le_bytes());
     let broadcast_hash = broadcast_hash.finalize();
 
     OverlayBroadcastToSign {
-- 
2.43.0


From 4f3f24cc50588d02070a8abfbcd6b9f59db045a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 33/44] fix: refuse overlay messages with trailing data

---
 src/overlay/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/overlay/node.rs b/src/overlay/node.rs
index 19fbeee..fbef041 100644
--- a/src/overlay/node.rs
+++ b/src/overlay/node.rs
@@ -149,7 +149,9 @@ impl MessageSubscriber for NodeState {
         let overlay_id = IdShort::from(<[u8; 32]>::read_from(data, &mut offset)?);
         let broadcast = proto::overlay::Broadcast::read_from(data, &mut offset)?;
 
-        // TODO: check that offset == data.len()
+        if offset != data.len() {
+            return Err(NodeError::UnexpectedTrailingData.into());
+        }
 
         let overlay = self.get_overlay(&overlay_id)?;
         match broadcast {
@@ -213,6 +215,8 @@ impl QuerySubscriber for NodeState {
 enum NodeError {
     #[error("Unsupported overlay broadcast message")]
     UnsupportedOverlayBroadcastMessage,
+    #[error("Unexpected trailing data")]
+    UnexpectedTrailingData,
     #[error("Unknown overlay")]
     UnknownOverlay,
     #[error("No consumer for message in overlay")]
-- 
2.43.0


From ab54c1ef8ebb283125efbcf2b96caa1a47edc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 34/44] fix: verify parts of large broadcasts before using and
 passing them on

---
 src/overlay/overlay.rs | 68 +++++++++++++++++++++++++-----------------
 src/rldp/decoder.rs    |  7 ++++-
 2 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 599ef15..0b762aa 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -634,10 +634,8 @@ impl Overlay {
         let node_id = adnl::NodeIdFull::try_from(broadcast.src)?;
         let source = node_id.compute_short_id();
 
-        let signature = match broadcast.signature.len() {
-            64 => broadcast.signature.try_into().unwrap(),
-            _ => return Err(OverlayError::UnsupportedSignature.into()),
-        };
+        // NOTE: the part must be verified before it can affect anything or be redistributed
+        verify_fec_part(&node_id, &source, &broadcast)?;
 
         let transfer = match self.owned_broadcasts.entry(broadcast_id) {
             // First packet of the broadcast
@@ -662,6 +660,16 @@ impl Overlay {
             return Ok(());
         }
 
+        // Ignore parts of another encoding
+        if transfer.fec_type != broadcast.fec {
+            tracing::trace!(
+                overlay_id = %self.id,
+                broadcast_id = %DisplayBroadcastId(&broadcast_id),
+                "same broadcast but parts with different FEC parameters"
+            );
+            return Ok(());
+        }
+
         // Ignore duplicate packets
         if !transfer.history.deliver_packet(broadcast.seqno as u64) {
             return Ok(());
@@ -670,15 +678,10 @@ impl Overlay {
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
             transfer.broadcast_tx.send(BroadcastFec {
-                node_id,
                 data_hash: broadcast_id,
                 data_size: broadcast.data_size,
-                flags: broadcast.flags,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
-                fec_type: broadcast.fec,
-                date: broadcast.date,
-                signature,
             })?;
         }
 
@@ -986,6 +989,7 @@ impl Overlay {
                 history: PacketsHistory::for_recv(),
                 broadcast_tx,
                 source: peer_id,
+                fec_type,
                 updated_at: Default::default(),
             })))
             .clone();
@@ -1233,29 +1237,43 @@ pub struct OverlayMetrics {
     pub received_broadcasts_barrier_count: usize,
 }
 
-fn process_fec_broadcast(
-    decoder: &mut RaptorQDecoder,
-    broadcast: BroadcastFec,
-) -> Result<Option<Vec<u8>>> {
-    let broadcast_id = &broadcast.data_hash;
+fn verify_fec_part(
+    node_id: &adnl::NodeIdFull,
+    source: &adnl::NodeIdShort,
+    broadcast: &proto::overlay::OverlayBroadcastFec<'_>,
+) -> Result<()> {
+    if broadcast.signature.len() != 64 {
+        return Err(OverlayError::UnsupportedSignature.into());
+    }
 
-    let broadcast_to_sign = &make_fec_part_to_sign(
-        broadcast_id,
+    if broadcast.data_size != broadcast.fec.total_len
+        || !RaptorQDecoder::is_valid_symbol(&broadcast.fec, broadcast.seqno, broadcast.data)
+    {
+        return Err(OverlayError::InvalidFecParameters.into());
+    }
+
+    let broadcast_to_sign = make_fec_part_to_sign(
+        broadcast.data_hash,
         broadcast.data_size,
         broadcast.date,
         broadcast.flags,
-        &broadcast.fec_type,
-        &broadcast.data,
+        &broadcast.fec,
+        broadcast.data,
         broadcast.seqno,
         if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
-            Some(broadcast.node_id.compute_short_id())
+            Some(*source)
         } else {
             None
         },
     );
-    broadcast
-        .node_id
-        .verify(broadcast_to_sign, &broadcast.signature)?;
+    Ok(node_id.verify(&broadcast_to_sign, broadcast.signature)?)
+}
+
+fn process_fec_broadcast(
+    decoder: &mut RaptorQDecoder,
+    broadcast: BroadcastFec,
+) -> Result<Option<Vec<u8>>> {
+    let broadcast_id = &broadcast.data_hash;
 
     match decoder.decode(broadcast.seqno, broadcast.data) {
         Some(result) if result.len() != broadcast.data_size as usize => {
@@ -1374,6 +1392,7 @@ struct IncomingFecTransfer {
     history: PacketsHistory,
     broadcast_tx: BroadcastFecTx,
     source: adnl::NodeIdShort,
+    fec_type: proto::rldp::RaptorQFecType,
     updated_at: UpdatedAt,
 }
 
@@ -1390,15 +1409,10 @@ enum OwnedBroadcast {
 
 #[derive(Debug)]
 struct BroadcastFec {
-    node_id: adnl::NodeIdFull,
     data_hash: BroadcastId,
     data_size: u32,
-    flags: u32,
     data: Vec<u8>,
     seqno: u32,
-    fec_type: proto::rldp::RaptorQFecType,
-    date: u32,
-    signature: [u8; 64],
 }
 
 type VacantBroadcastEntry<'a> =
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 231223b..7fca490 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -30,7 +30,7 @@ impl RaptorQDecoder {
     }
 
     pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
-        if seqno > MAX_SYMBOL_ID || data.len() != self.params.packet_len as usize {
+        if !Self::is_valid_symbol(&self.params, seqno, &data) {
             return None;
         }
 
@@ -39,6 +39,11 @@ impl RaptorQDecoder {
         self.engine.decode(packet)
     }
 
+    /// Checks whether a symbol can belong to a transfer with these parameters
+    pub fn is_valid_symbol(params: &RaptorQFecType, seqno: u32, data: &[u8]) -> bool {
+        seqno <= MAX_SYMBOL_ID && data.len() == params.packet_len as usize
+    }
+
     pub fn params(&self) -> &RaptorQFecType {
         &self.params
     }
-- 
2.43.0


From 47ca9df2c00476a52ac1e45bdb6393df22bf244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 35/44] fix: accept parts of large broadcasts in any order

---
 src/overlay/overlay.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 0b762aa..d8342a1 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -671,7 +671,7 @@ impl Overlay {
         }
 
         // Ignore duplicate packets
-        if !transfer.history.deliver_packet(broadcast.seqno as u64) {
+        if !transfer.received_parts.insert(broadcast.seqno) {
             return Ok(());
         }
 
@@ -986,7 +986,7 @@ impl Overlay {
         let entry = entry
             .insert(Arc::new(OwnedBroadcast::Incoming(IncomingFecTransfer {
                 completed: AtomicBool::new(false),
-                history: PacketsHistory::for_recv(),
+                received_parts: Default::default(),
                 broadcast_tx,
                 source: peer_id,
                 fec_type,
@@ -1389,7 +1389,7 @@ pub struct OutgoingBroadcastInfo {
 
 struct IncomingFecTransfer {
     completed: AtomicBool,
-    history: PacketsHistory,
+    received_parts: FastDashSet<u32>,
     broadcast_tx: BroadcastFecTx,
     source: adnl::NodeIdShort,
     fec_type: proto::rldp::RaptorQFecType,
-- 
2.43.0


From 3e0c9ceac7dbeccf95097485d8617b05b7837afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 36/44] fix: keep transfers of large broadcasts of different
 sources apart

---
 src/overlay/overlay.rs | 52 +++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index d8342a1..5e6c616 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -637,11 +637,24 @@ impl Overlay {
         // NOTE: the part must be verified before it can affect anything or be redistributed
         verify_fec_part(&node_id, &source, &broadcast)?;
 
-        let transfer = match self.owned_broadcasts.entry(broadcast_id) {
+        // NOTE: transfers of different sources must not affect each other
+        let transfer_id = compute_fec_transfer_id(&broadcast_id, &source);
+        if !self.owned_broadcasts.contains_key(&transfer_id)
+            && self.owned_broadcasts.contains_key(&broadcast_id)
+        {
+            // Broadcast was already received from another source or sent by this node
+            return Ok(());
+        }
+
+        let transfer = match self.owned_broadcasts.entry(transfer_id) {
             // First packet of the broadcast
-            Entry::Vacant(entry) => {
-                self.spawn_fec_transfer_receiver(broadcast.fec, broadcast_id, source, entry)?
-            }
+            Entry::Vacant(entry) => self.spawn_fec_transfer_receiver(
+                broadcast.fec,
+                broadcast_id,
+                transfer_id,
+                source,
+                entry,
+            )?,
             // Broadcast was already started
             Entry::Occupied(entry) => entry.get().clone(),
         };
@@ -651,14 +664,6 @@ impl Overlay {
         };
 
         transfer.updated_at.refresh();
-        if transfer.source != source {
-            tracing::trace!(
-                overlay_id = %self.id,
-                broadcast_id = %DisplayBroadcastId(&broadcast_id),
-                "same broadcast but parts from different sources"
-            );
-            return Ok(());
-        }
 
         // Ignore parts of another encoding
         if transfer.fec_type != broadcast.fec {
@@ -973,6 +978,7 @@ impl Overlay {
         self: &Arc<Self>,
         fec_type: proto::rldp::RaptorQFecType,
         broadcast_id: BroadcastId,
+        transfer_id: BroadcastId,
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
@@ -988,7 +994,6 @@ impl Overlay {
                 completed: AtomicBool::new(false),
                 received_parts: Default::default(),
                 broadcast_tx,
-                source: peer_id,
                 fec_type,
                 updated_at: Default::default(),
             })))
@@ -1011,7 +1016,11 @@ impl Overlay {
                             data,
                             from: peer_id,
                         };
-                        overlay.received_broadcasts.push(data);
+                        // NOTE: the same data could be already received from another source
+                        if overlay.create_broadcast(broadcast_id) {
+                            overlay.received_broadcasts.push(data);
+                            overlay.spawn_broadcast_gc_task(broadcast_id);
+                        }
                         break;
                     }
                     // Broadcast is not complete yet
@@ -1029,7 +1038,7 @@ impl Overlay {
             }
 
             // Mark broadcast as completed
-            if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+            if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                 match broadcast.value().as_ref() {
                     OwnedBroadcast::Incoming(transfer) => {
                         transfer.completed.store(true, Ordering::Release);
@@ -1053,7 +1062,7 @@ impl Overlay {
                 tokio::time::sleep(Duration::from_millis(broadcast_timeout_sec * 100)).await;
 
                 // Find incoming broadcast
-                if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+                if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                     match broadcast.value().as_ref() {
                         // Keep waiting if broadcast is not expired or not complete
                         OwnedBroadcast::Incoming(transfer)
@@ -1076,7 +1085,7 @@ impl Overlay {
                 break;
             }
 
-            overlay.spawn_broadcast_gc_task(broadcast_id);
+            overlay.spawn_broadcast_gc_task(transfer_id);
         });
 
         Ok(entry)
@@ -1373,6 +1382,14 @@ fn make_fec_part_to_sign(
     }
 }
 
+/// Incoming FEC transfers are distinguished by the data hash and the source
+fn compute_fec_transfer_id(data_hash: &BroadcastId, source: &adnl::NodeIdShort) -> BroadcastId {
+    let mut hash = sha2::Sha256::new();
+    hash.update(data_hash);
+    hash.update(source.as_slice());
+    hash.finalize().into()
+}
+
 /// Received overlay broadcast
 pub struct IncomingBroadcastInfo {
     pub packets: u32,
@@ -1391,7 +1408,6 @@ struct IncomingFecTransfer {
     completed: AtomicBool,
     received_parts: FastDashSet<u32>,
     broadcast_tx: BroadcastFecTx,
-    source: adnl::NodeIdShort,
     fec_type: proto::rldp::RaptorQFecType,
     updated_at: UpdatedAt,
 }
-- 
2.43.0


From 5caf239f63ec426322ddb0f07783930af8d9d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 37/44] fix: do not lose broadcasts of cancelled receivers

---
 src/overlay/broadcast_receiver.rs | 64 +++++++++++++++++--------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 52b9f45..30c2948 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -1,13 +1,14 @@
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 use crossbeam_queue::SegQueue;
-use tokio::sync::Barrier;
+use tokio::sync::Semaphore;
 
 pub struct BroadcastReceiver<T> {
     data: SegQueue<T>,
-    barriers: SegQueue<Arc<Barrier>>,
-    sync_lock: AtomicU32,
+    /// Number of items which are not reserved by receivers yet
+    available: Semaphore,
+    waiters: AtomicUsize,
 }
 
 impl<T: Send + 'static> BroadcastReceiver<T> {
@@ -16,37 +17,27 @@ impl<T: Send + 'static> BroadcastReceiver<T> {
     }
 
     pub fn barriers_len(&self) -> usize {
-        self.barriers.len()
+        self.waiters.load(Ordering::Acquire)
     }
 
     pub fn push(self: &Arc<Self>, data: T) {
         self.data.push(data);
-        let receiver = self.clone();
-        tokio::spawn(async move {
-            while receiver.sync_lock.load(Ordering::Acquire) > 0 {
-                if let Some(barrier) = receiver.barriers.pop() {
-                    barrier.wait().await;
-                    break;
-                } else {
-                    tokio::task::yield_now().await;
-                }
-            }
-        });
+        self.available.add_permits(1);
     }
 
+    /// Waits for the next item.
+    ///
+    /// NOTE: cancel safe, a permit of a cancelled waiter is passed to the next one
     pub async fn pop(&self) -> T {
-        self.sync_lock.fetch_add(1, Ordering::Release);
+        let _waiter = WaiterGuard::new(&self.waiters);
         loop {
-            match self.data.pop() {
-                Some(data) => {
-                    self.sync_lock.fetch_sub(1, Ordering::Release);
-                    return data;
-                }
-                None => {
-                    let barrier = Arc::new(Barrier::new(2));
-                    self.barriers.push(barrier.clone());
-                    barrier.wait().await;
-                }
+            // NOTE: semaphore is never closed
+            if let Ok(permit) = self.available.acquire().await {
+                permit.forget();
+            }
+
+            if let Some(data) = self.data.pop() {
+                return data;
             }
         }
     }
@@ -56,8 +47,23 @@ impl<T> Default for BroadcastReceiver<T> {
     fn default() -> Self {
         Self {
             data: Default::default(),
-            barriers: Default::default(),
-            sync_lock: Default::default(),
+            available: Semaphore::new(0),
+            waiters: Default::default(),
         }
     }
 }
+
+struct WaiterGuard<'a>(&'a AtomicUsize);
+
+impl<'a> WaiterGuard<'a> {
+    fn new(waiters: &'a AtomicUsize) -> Self {
+        waiters.fetch_add(1, Ordering::Release);
+        Self(waiters)
+    }
+}
+
+impl Drop for WaiterGuard<'_> {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, Ordering::Release);
+    }
+}
-- 
2.43.0


From 900ca1148cbd779ff3bdddef503923e8b7d553c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 38/44] fix: remove peers of public overlays from their
 neighbours

---
 src/adnl/peers_set.rs  | 22 ++++++++++++++++++++++
 src/overlay/overlay.rs |  2 +-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index d6c869b..ad8ad05 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -131,6 +131,11 @@ impl PeersSet {
         self.state.write().insert(peer_id)
     }
 
+    /// Removes a value from the set. Returns whether the value was present in the set.
+    pub fn remove(&self, peer_id: &NodeIdShort) -> bool {
+        self.state.write().remove(peer_id)
+    }
+
     pub fn extend<I>(&self, peers: I)
     where
         I: IntoIterator<Item = NodeIdShort>,
@@ -306,6 +311,23 @@ impl PeersSetState {
 
         true
     }
+
+    fn remove(&mut self, peer_id: &NodeIdShort) -> bool {
+        let index = match self.cache.remove(Wrapper::wrap(peer_id)) {
+            Some(index) => index as usize,
+            None => return false,
+        };
+
+        // Move the last peer to the vacant place
+        self.index.swap_remove(index);
+        if let Some(moved) = self.index.get(index) {
+            self.cache.insert(moved.clone(), index as u32);
+        }
+
+        self.upper = self.index.len() as u32;
+        self.version += 1;
+        true
+    }
 }
 
 // SAFETY: internal Rcs are not exposed by the api and the reference
diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 5e6c616..5f510e6 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -315,7 +315,7 @@ impl Overlay {
             return false;
         }
         tracing::warn!(overlay_id = %self.id, %peer_id, "removing public overlay peer");
-        if self.neighbours.contains(peer_id) {
+        if self.neighbours.remove(peer_id) {
             self.update_neighbours(self.options.max_neighbours);
         }
         true
-- 
2.43.0


From 55ea9fa4601dd8e936cd35e2ede031129030b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 39/44] fix: limit the size of decompressed data

---
 src/rldp/compression.rs     | 65 ++++++++++++++++++++++++++++---------
 src/rldp/node.rs            |  8 ++++-
 src/rldp/transfers_cache.rs | 17 ++++++++--
 3 files changed, 72 insertions(+), 18 deletions(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 62426e4..b8ce4d2 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -1,3 +1,5 @@
+use std::io::Read;
+
 pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
     let uncompressed = data.len();
     if uncompressed <= COMPRESSION_THRESHOLD {
@@ -21,32 +23,65 @@ pub fn compress(data: &mut Vec<u8>) -> std::io::Result<()> {
     Ok(())
 }
 
+/// Returns `None` if data is not compressed or if it is too large when decompressed
 pub fn decompress(data: &[u8]) -> Option<Vec<u8>> {
-    if data.last() != Some(&TAG_COMPRESSED) {
-        return None;
-    }
+    decompress_limited(data, MAX_DECOMPRESSED_SIZE)
+        .ok()
+        .flatten()
+}
+
+/// Returns `Ok(None)` if data is not compressed
+///
+/// NOTE: the amount of decompressed data is chosen by the remote side and can exceed
+/// the size of `data` by several orders of magnitude, so it must be limited
+pub fn decompress_limited(
+    data: &[u8],
+    max_size: usize,
+) -> Result<Option<Vec<u8>>, DecompressedSizeExceeded> {
+    let data = match data.split_last() {
+        Some((&TAG_COMPRESSED, data)) => data,
+        _ => return Ok(None),
+    };
 
-    let len = data.len();
-    match zstd::stream::decode_all(&mut &data[..len - 1]) {
-        Ok(mut data) if data.len() >= 4 => {
-            let len = data.len();
+    let max_size = max_size.saturating_add(4);
+    let mut result = Vec::new();
+    let decoded = zstd::stream::Decoder::new(data).and_then(|decoder| {
+        decoder
+            .take((max_size as u64).saturating_add(1))
+            .read_to_end(&mut result)
+    });
 
-            let src_len = ((data[len - 4] as usize) << 24)
-                | ((data[len - 3] as usize) << 16)
-                | ((data[len - 2] as usize) << 8)
-                | (data[len - 1] as usize);
+    match decoded {
+        Ok(len) if len > max_size => Err(DecompressedSizeExceeded),
+        Ok(len) if len >= 4 => {
+            let src_len = ((result[len - 4] as usize) << 24)
+                | ((result[len - 3] as usize) << 16)
+                | ((result[len - 2] as usize) << 8)
+                | (result[len - 1] as usize);
 
             if src_len != len - 4 {
-                return None;
+                return Ok(None);
             }
 
-            data.truncate(src_len);
-            Some(data)
+            result.truncate(src_len);
+            Ok(Some(result))
         }
-        _ => None,
+        _ => Ok(None),
     }
 }
 
+/// Returns the max allowed size of decompressed data of an RLDP message
+pub fn max_decompressed_size(max_answer_size: u32) -> usize {
+    std::cmp::max(max_answer_size as usize, MAX_DECOMPRESSED_SIZE)
+}
+
+#[derive(thiserror::Error, Debug)]
+#[error("Decompressed data is too large")]
+pub struct DecompressedSizeExceeded;
+
+/// Max size of decompressed data (64 MB) if it is not extended by the answer size limit
+const MAX_DECOMPRESSED_SIZE: usize = 64 * 1024 * 1024;
+
 const COMPRESSION_THRESHOLD: usize = 256;
 const COMPRESSION_LEVEL: i32 = 3;
 
diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 40e0da0..e3d9cf8 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -152,7 +152,13 @@ impl Node {
                     query_id: answer_id,
                     data,
                 }) if answer_id == &query_id => Ok((
-                    Some(compression::decompress(data).unwrap_or_else(|| data.to_vec())),
+                    Some(
+                        compression::decompress_limited(
+                            data,
+                            compression::max_decompressed_size(self.options.max_answer_size),
+                        )?
+                        .unwrap_or_else(|| data.to_vec()),
+                    ),
                     roundtrip,
                 )),
                 Ok(proto::rldp::Message::Answer { .. }) => Err(NodeError::QueryIdMismatch.into()),
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 583d68c..a547b88 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -294,6 +294,7 @@ impl TransfersCache {
         let transfers = self.transfers.clone();
         let query_options = self.query_options;
         let force_compression = self.force_compression;
+        let max_decompressed_size = compression::max_decompressed_size(self.max_answer_size);
         tokio::spawn(async move {
             // Wait until incoming query is received
             incoming_context.receive(None).await;
@@ -306,6 +307,7 @@ impl TransfersCache {
                     subscribers,
                     query_options,
                     force_compression,
+                    max_decompressed_size,
                 )
                 .await
                 .unwrap_or_default();
@@ -434,6 +436,7 @@ impl IncomingContext {
         subscribers: Arc<Vec<Arc<dyn QuerySubscriber>>>,
         query_options: QueryOptions,
         force_compression: bool,
+        max_decompressed_size: usize,
     ) -> Result<Option<TransferId>> {
         // Deserialize incoming query
         let query = match OwnedRldpMessageQuery::from_data(self.transfer.take_data()) {
@@ -447,7 +450,15 @@ impl IncomingContext {
             local_id: &self.local_id,
             peer_id: &self.peer_id,
         };
-        let answer = match process_rldp_query(ctx, &subscribers, query, force_compression).await? {
+        let answer = match process_rldp_query(
+            ctx,
+            &subscribers,
+            query,
+            force_compression,
+            max_decompressed_size,
+        )
+        .await?
+        {
             QueryProcessingResult::Processed(Some(answer)) => answer,
             QueryProcessingResult::Processed(None) => return Ok(None),
             QueryProcessingResult::Rejected => {
@@ -593,8 +604,10 @@ async fn process_rldp_query(
     subscribers: &[Arc<dyn QuerySubscriber>],
     mut query: OwnedRldpMessageQuery,
     force_compression: bool,
+    max_decompressed_size: usize,
 ) -> Result<QueryProcessingResult<Vec<u8>>> {
-    let answer_compression = match compression::decompress(&query.data) {
+    let decompressed = compression::decompress_limited(&query.data, max_decompressed_size)?;
+    let answer_compression = match decompressed {
         Some(decompressed) => {
             query.data = decompressed;
             true
-- 
2.43.0


From ad29cdc9417444e62e61b24b4d428f08e190fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 40/44] fix: check headers of small frames when decompressing

---
 src/rldp/compression.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index b8ce4d2..063b09d 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -44,16 +44,10 @@ pub fn decompress_limited(
     };
 
     let max_size = max_size.saturating_add(4);
-    let mut result = Vec::new();
-    let decoded = zstd::stream::Decoder::new(data).and_then(|decoder| {
-        decoder
-            .take((max_size as u64).saturating_add(1))
-            .read_to_end(&mut result)
-    });
-
-    match decoded {
-        Ok(len) if len > max_size => Err(DecompressedSizeExceeded),
-        Ok(len) if len >= 4 => {
+    match decode_limited(data, max_size) {
+        Ok(result) if result.len() > max_size => Err(DecompressedSizeExceeded),
+        Ok(mut result) if result.len() >= 4 => {
+            let len = result.len();
             let src_len = ((result[len - 4] as usize) << 24)
                 | ((result[len - 3] as usize) << 16)
                 | ((result[len - 2] as usize) << 8)
@@ -70,6 +64,23 @@ pub fn decompress_limited(
     }
 }
 
+/// Decodes at most `max_size` bytes and a few more if there are any
+fn decode_limited(data: &[u8], max_size: usize) -> std::io::Result<Vec<u8>> {
+    let mut decoder = zstd::stream::Decoder::new(data)?;
+
+    // NOTE: `read_to_end` is not used because it starts with a very small buffer,
+    // and headers of small frames are not checked in this case
+    let mut buffer = [0; 8192];
+    let mut result = Vec::new();
+    while result.len() <= max_size {
+        match decoder.read(&mut buffer)? {
+            0 => break,
+            len => result.extend_from_slice(&buffer[..len]),
+        }
+    }
+    Ok(result)
+}
+
 /// Returns the max allowed size of decompressed data of an RLDP message
 pub fn max_decompressed_size(max_answer_size: u32) -> usize {
     std::cmp::max(max_answer_size as usize, MAX_DECOMPRESSED_SIZE)
-- 
2.43.0


From 8e77a718e5cee5a6c5b4af17fa3d3dad5c9c3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 41/44] fix: collect ADNL message parts of differently split
 copies

Copies of one message (e.g. the answers to a repeated query) are split
differently while the channel is not ready, and their parts overlap.
---
 src/adnl/transfer.rs | 138 +++++++++++++++++++++----------------------
 1 file changed, 68 insertions(+), 70 deletions(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 2e104fa..5910761 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -1,5 +1,7 @@
+use std::collections::BTreeMap;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
+use parking_lot::Mutex;
 use sha2::Digest;
 
 use super::node_id::NodeIdShort;
@@ -19,8 +21,8 @@ pub type TransferKey = (NodeIdShort, NodeIdShort, TransferId);
 ///
 /// See [crate::proto::adnl::Message]
 pub struct Transfer {
-    /// Data parts labeled with offset
-    parts: FastDashMap<usize, Vec<u8>>,
+    /// Non-overlapping data parts labeled with offset
+    parts: Mutex<BTreeMap<usize, Vec<u8>>>,
     /// Received data length
     received_len: AtomicUsize,
     /// Total data length
@@ -33,7 +35,7 @@ impl Transfer {
     /// Creates new multipart transfer with target length in bytes
     pub fn new(total_len: usize) -> Self {
         Self {
-            parts: FastDashMap::with_capacity_and_hasher(0, Default::default()),
+            parts: Default::default(),
             received_len: Default::default(),
             total_len,
             timings: Default::default(),
@@ -48,86 +50,84 @@ impl Transfer {
 
     /// Tries to add new part to the transfer at given offset
     ///
-    /// Will do nothing if part at given offset already exists
+    /// Will do nothing if data at given offset already exists
+    ///
+    /// NOTE: parts can overlap because copies of the same message could be split differently
+    /// (the first part shares its packet with an additional message during the handshake)
     pub fn add_part(
         &self,
         offset: usize,
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
-        use dashmap::mapref::entry::Entry;
-
-        // Empty parts don't make any progress
-        let len = data.len();
-        if len == 0 {
-            return Ok(None);
+        // Check part bounds
+        let end = offset + data.len();
+        if end > self.total_len {
+            return Err(TransferError::ReceivedTooMuch);
         }
 
-        match self.parts.entry(offset) {
-            Entry::Vacant(entry) => {
-                entry.insert(data);
+        let mut parts = self.parts.lock();
+
+        // Save only the data which was not received yet
+        let mut added = 0;
+        let mut position = offset;
+        while position < end {
+            if let Some((start, part)) = parts.range(..=position).next_back() {
+                let part_end = start + part.len();
+                if part_end > position {
+                    position = part_end;
+                    continue;
+                }
             }
-            Entry::Occupied(_) => return Ok(None),
-        }
 
-        // Increase received length.
-        // This part heavily relies on ordering, so hope that it works as expected
-        self.received_len.fetch_add(len, Ordering::Release);
-
-        // Check if it is equal to the total length and make sure it will be big enough to fail
-        // next check on success
-        let mut received = self
-            .received_len
-            .compare_exchange(
-                self.total_len,
-                self.total_len * 2,
-                Ordering::Acquire,
-                Ordering::Acquire,
-            )
-            .unwrap_or_else(std::convert::identity);
+            let gap_end = parts
+                .range(position..end)
+                .next()
+                .map_or(end, |(&start, _)| start);
+            parts.insert(position, data[position - offset..gap_end - offset].to_vec());
+            added += gap_end - position;
+            position = gap_end;
+        }
 
-        // Handle part
-        match received.cmp(&self.total_len) {
-            std::cmp::Ordering::Equal => {
-                tracing::debug!(
-                    received,
-                    total = self.total_len,
-                    transfer_id = %DisplayTransferId(transfer_id),
-                    "finished ADNL transfer"
-                );
-
-                // Combine all parts
-                received = 0;
-                let mut buffer = Vec::with_capacity(self.total_len);
-                while received < self.total_len {
-                    if let Some(data) = self.parts.get(&received) {
-                        let data = data.value();
-                        received += data.len();
-                        buffer.extend_from_slice(data);
-                    } else {
-                        return Err(TransferError::PartMissing);
-                    }
-                }
+        // Empty or repeated parts don't make any progress
+        if added == 0 {
+            return Ok(None);
+        }
 
-                // Check hash
-                let hash = sha2::Sha256::digest(&buffer);
-                if hash.as_slice() != transfer_id {
-                    return Err(TransferError::InvalidHash);
-                }
+        // Increase received length
+        let received = self.received_len.fetch_add(added, Ordering::Relaxed) + added;
 
-                // Done
-                Ok(Some(buffer))
+        // Handle part
+        if received == self.total_len {
+            tracing::debug!(
+                received,
+                total = self.total_len,
+                transfer_id = %DisplayTransferId(transfer_id),
+                "finished ADNL transfer"
+            );
+
+            // Combine all parts
+            let mut buffer = Vec::with_capacity(self.total_len);
+            for part in parts.values() {
+                buffer.extend_from_slice(part);
             }
-            std::cmp::Ordering::Greater => Err(TransferError::ReceivedTooMuch),
-            std::cmp::Ordering::Less => {
-                tracing::trace!(
-                    received,
-                    total = self.total_len,
-                    transfer_id = %DisplayTransferId(transfer_id),
-                    "received ADNL transfer part"
-                );
-                Ok(None)
+
+            // Check hash
+            let hash = sha2::Sha256::digest(&buffer);
+            if hash.as_slice() != transfer_id {
+                return Err(TransferError::InvalidHash);
             }
+
+            // Done
+            Ok(Some(buffer))
+        } else {
+            tracing::trace!(
+                received,
+                total = self.total_len,
+                transfer_id = %DisplayTransferId(transfer_id),
+                "received ADNL transfer part"
+            );
+            Ok(None)
         }
     }
 }
@@ -150,8 +150,6 @@ impl std::fmt::Display for DisplayTransferId<'_> {
 pub enum TransferError {
     #[error("Invalid transfer part (received too much)")]
     ReceivedTooMuch,
-    #[error("Invalid transfer (part is missing)")]
-    PartMissing,
     #[error("Invalid transfer data hash")]
     InvalidHash,
 }
-- 
2.43.0


From 0f08924c37e056aa1138d21ce387b16c15941597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 42/44] fix: accept short channel packets

---
 src/adnl/handshake.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/adnl/handshake.rs b/src/adnl/handshake.rs
index c711ccb..75bf572 100644
--- a/src/adnl/handshake.rs
+++ b/src/adnl/handshake.rs
@@ -86,7 +86,8 @@ pub fn parse_handshake_packet(
     keys: &FastHashMap<NodeIdShort, Arc<Key>>,
     buffer: &mut PacketView<'_>,
 ) -> Result<Option<(NodeIdShort, Option<u16>)>, HandshakeError> {
-    const PUBLIC_KEY_RANGE: std::ops::Range<usize> = 32..64;
+    const LOCAL_ID_LEN: usize = 32;
+    const PUBLIC_KEY_RANGE: std::ops::Range<usize> = LOCAL_ID_LEN..64;
 
     // Ordinary data ranges
     const DATA_START: usize = 96;
@@ -98,11 +99,11 @@ pub fn parse_handshake_packet(
     const EXT_CHECKSUM_RANGE: std::ops::Range<usize> = 68..EXT_DATA_START;
     const EXT_DATA_RANGE: std::ops::RangeFrom<usize> = EXT_DATA_START..;
 
-    if buffer.len() < DATA_START {
+    if buffer.len() < LOCAL_ID_LEN {
         return Err(HandshakeError::BadHandshakePacketLength);
     }
 
-    // SAFETY: NodeIdShort is 32 (<= 96) bytes and has the same layout as `[u8; 32]`
+    // SAFETY: NodeIdShort is 32 bytes and has the same layout as `[u8; 32]`
     // due to `#[repr(transparent)]`
     let local_id = unsafe { &*(buffer.as_ptr() as *const NodeIdShort) };
 
@@ -113,6 +114,11 @@ pub fn parse_handshake_packet(
         None => return Ok(None),
     };
 
+    // NOTE: must be checked only for handshake packets, because channel packets can be shorter
+    if buffer.len() < DATA_START {
+        return Err(HandshakeError::BadHandshakePacketLength);
+    }
+
     // Compute shared secret
     let shared_secret =
         match ed25519::PublicKey::from_bytes(buffer[PUBLIC_KEY_RANGE].try_into().unwrap()) {
-- 
2.43.0


From db1e61ea15768bc133dd700ef5cb1774c4f45e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 43/44] fix: a peer's outdated address list must not fail
 store_address

---
 src/dht/node.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 8c01cd1..7b6a767 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -441,9 +441,9 @@ impl Node {
             )
             .sign_and_store(key)?
             .then_check(move |_, BoxedWrapper(address_list)| {
-                match parse_address_list(&address_list, clock_tolerance_sec)? {
-                    stored_addr if stored_addr == addr => Ok(true),
-                    stored_addr => {
+                match parse_address_list(&address_list, clock_tolerance_sec) {
+                    Ok(stored_addr) if stored_addr == addr => Ok(true),
+                    Ok(stored_addr) => {
                         tracing::warn!(
                             stored = %stored_addr,
                             expected = %addr,
@@ -451,6 +451,11 @@ impl Node {
                         );
                         Ok(false)
                     }
+                    // NOTE: an outdated value of one node must not affect others
+                    Err(e) => {
+                        tracing::warn!("invalid stored address list: {e:?}");
+                        Ok(false)
+                    }
                 }
             })
             .await
-- 
2.43.0


From f0d5aa8a7ce8728f53263cb024f31c62634e8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:31 +0000
Subject: [PATCH 44/44] fix: unfinished large broadcast keeps its overlay alive
 forever

The task that receives the parts of a broadcast held its overlay, and the overlay
held the sending end of the queue of that task, so neither was ever freed if the
broadcast stayed incomplete.
---
 src/overlay/overlay.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 5f510e6..f9c7085 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1000,7 +1000,10 @@ impl Overlay {
             .clone();
 
         // Spawn packets receiver
-        let overlay = self.clone();
+        //
+        // NOTE: unfinished broadcast must not keep its overlay alive
+        let overlay_ref = Arc::downgrade(self);
+        let overlay_id = self.id;
         tokio::spawn(async move {
             // For each fec broadcast packet
             let mut packets = 0;
@@ -1016,10 +1019,12 @@ impl Overlay {
                             data,
                             from: peer_id,
                         };
-                        // NOTE: the same data could be already received from another source
-                        if overlay.create_broadcast(broadcast_id) {
-                            overlay.received_broadcasts.push(data);
-                            overlay.spawn_broadcast_gc_task(broadcast_id);
+                        if let Some(overlay) = overlay_ref.upgrade() {
+                            // NOTE: the same data could be already received from another source
+                            if overlay.create_broadcast(broadcast_id) {
+                                overlay.received_broadcasts.push(data);
+                                overlay.spawn_broadcast_gc_task(broadcast_id);
+                            }
                         }
                         break;
                     }
@@ -1028,7 +1033,7 @@ impl Overlay {
                     // Error during decoding
                     Err(e) => {
                         tracing::warn!(
-                            overlay_id = %overlay.id,
+                            overlay_id = %overlay_id,
                             broadcast_id = %DisplayBroadcastId(&broadcast_id),
                             "error when receiving overlay broadcast: {e}"
                         );
@@ -1038,6 +1043,10 @@ impl Overlay {
             }
 
             // Mark broadcast as completed
+            let overlay = match overlay_ref.upgrade() {
+                Some(overlay) => overlay,
+                None => return,
+            };
             if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                 match broadcast.value().as_ref() {
                     OwnedBroadcast::Incoming(transfer) => {
@@ -1045,13 +1054,13 @@ impl Overlay {
                     }
                     _ => {
                         tracing::error!(
-                            overlay_id = %overlay.id,
+                            overlay_id = %overlay_id,
                             broadcast_id = %DisplayBroadcastId(&broadcast_id),
                             "incoming fec broadcast mismatch"
                         );
                     }
                 }
-            }
+            };
         });
 
         // Spawn broadcast cleanup task
-- 
2.43.0

