From 05b42467754c5bb1c27a82b552923cc246487db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 1/3] fix: reject OpenAck while another channel is open

Two handshakes started by the owner could both complete, because only OpenInit
looked for an already open channel and nothing is stored until OpenAck. The
second OpenAck then replaced the stored channel although the first one was
still open on chain, leaving two open channels for one contract.
---
 src/ibc/handshake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ibc/handshake.rs b/src/ibc/handshake.rs
index 8d731a3..b85abde 100644
--- a/src/ibc/handshake.rs
+++ b/src/ibc/handshake.rs
@@ -170,6 +170,14 @@ mod ibc_channel_open {
             return Err(ContractError::InvalidIcaAddress);
         }
 
+        // this contract can only store one active channel
+        // another handshake may have been completed since this one was initiated
+        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
+            if channel_state.is_open() {
+                return Err(ContractError::ActiveChannelAlreadySet);
+            }
+        }
+
         // update state with the ica info
         state.set_ica_info(
             &metadata.address,
-- 
2.43.0


From 85b12aad9a150162c688602786d1f565d2b3b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 2/3] fix: a timeout only closes the channel its packet was
 sent on

A late timeout of a packet sent on a previous ordered channel marked the
channel opened since then as closed in the contract state.
---
 src/ibc/relay.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index c22860f..fccbcbc 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -55,8 +55,11 @@ pub fn ibc_packet_timeout(
     msg: IbcPacketTimeoutMsg,
 ) -> Result<IbcBasicResponse, ContractError> {
     // If the channel is ordered, close it.
+    // Packets of a previous (closed) channel may still time out after a new channel is opened.
     let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
-    if channel_state.is_ordered() {
+    if channel_state.is_ordered()
+        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
+    {
         channel_state.close();
         state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
     }
-- 
2.43.0


From f158e09538bdb7692fd56bc64c81fc57edabb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 3/3] fix: settle pending queries on an error acknowledgement

The stored query paths of a packet were never removed when the packet was
acknowledged with an error, and the callback of a packet without queries
carried a query result.
---
 src/ibc/relay.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ibc/relay.rs b/src/ibc/relay.rs
index fccbcbc..3d3a1c8 100644
--- a/src/ibc/relay.rs
+++ b/src/ibc/relay.rs
@@ -144,13 +144,18 @@ mod ibc_packet_ack {
     ) -> Result<IbcBasicResponse, ContractError> {
         let state = state::STATE.load(deps.storage)?;
         let error_event = events::packet_ack::error(&packet, &err);
+        let query_result = state::PENDING_QUERIES
+            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
+            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
+
+        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
 
         if let Some(contract_addr) = state.callback_address {
             let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
-                ica_acknowledgement: AcknowledgementData::Error(err.clone()),
+                ica_acknowledgement: AcknowledgementData::Error(err),
                 original_packet: packet,
                 relayer,
-                query_result: Some(query_msg::IcaQueryResult::Error(err)),
+                query_result,
             }
             .into_cosmos_msg(contract_addr)?;
 
-- 
2.43.0

