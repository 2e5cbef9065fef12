From 41078837117cadc1f564496c357ac715ac324280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:12 +0000
Subject: [PATCH 1/3] fix: check the Wormhole bridge and fee collector entries
 of the lookup table

initialize_lut can be called by anyone, and does not call the core bridge, so
nothing verified these two accounts: a caller could point the canonical lookup
table record at a table with unrelated accounts in their place.
---
 .../src/instructions/luts.rs                        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/solana/programs/example-native-token-transfers/src/instructions/luts.rs b/solana/programs/example-native-token-transfers/src/instructions/luts.rs
index 8749856..2c48d33 100644
--- a/solana/programs/example-native-token-transfers/src/instructions/luts.rs
+++ b/solana/programs/example-native-token-transfers/src/instructions/luts.rs
@@ -25,6 +25,7 @@
 use anchor_lang::prelude::*;
 use solana_address_lookup_table_program;
 use solana_program::program::{invoke, invoke_signed};
+use wormhole_anchor_sdk::wormhole::{BridgeData, FeeCollector};
 
 use crate::{config::Config, queue::outbox::OutboxRateLimit, transceivers::wormhole::accounts::*};
 
@@ -108,6 +109,18 @@ pub struct Entries<'info> {
     pub outbox_rate_limit: Account<'info, OutboxRateLimit>,
 
     // NOTE: this includes the system program so we don't need to add it in the outer context
+    // NOTE: the core bridge is not called here, so the accounts it would
+    // otherwise check have to be checked explicitly.
+    #[account(
+        constraint = wormhole.bridge.key() == Pubkey::find_program_address(
+            &[BridgeData::SEED_PREFIX],
+            wormhole.program.key,
+        ).0,
+        constraint = wormhole.fee_collector.key() == Pubkey::find_program_address(
+            &[FeeCollector::SEED_PREFIX],
+            wormhole.program.key,
+        ).0,
+    )]
     pub wormhole: WormholeAccounts<'info>,
 }
 
-- 
2.43.0


From a35392bdec585216cb96869c86c78c772638e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:02 +0000
Subject: [PATCH 2/3] fix: announce the full encoded size of transceiver
 messages

---
 solana/modules/ntt-messages/src/transceiver.rs           | 3 +++
 solana/modules/ntt-messages/src/transceivers/wormhole.rs | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/solana/modules/ntt-messages/src/transceiver.rs b/solana/modules/ntt-messages/src/transceiver.rs
index 798fc1b..80331cd 100644
--- a/solana/modules/ntt-messages/src/transceiver.rs
+++ b/solana/modules/ntt-messages/src/transceiver.rs
@@ -177,8 +177,11 @@ where
     fn written_size(&self) -> usize {
         4 // prefix
         + self.source_ntt_manager.len()
+        + self.recipient_ntt_manager.len()
         + u16::SIZE.unwrap() // length prefix
         + self.ntt_manager_payload.written_size()
+        + u16::SIZE.unwrap() // length prefix
+        + self.transceiver_payload.len()
     }
 
     fn write<W>(&self, writer: &mut W) -> io::Result<()>
diff --git a/solana/modules/ntt-messages/src/transceivers/wormhole.rs b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
index a96feff..48db6b8 100644
--- a/solana/modules/ntt-messages/src/transceivers/wormhole.rs
+++ b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
@@ -46,7 +46,7 @@ impl AnchorSerialize for WormholeTransceiverInfo {
 }
 
 impl Readable for WormholeTransceiverInfo {
-    const SIZE: Option<usize> = Some(32 + 1 + 32 + 1);
+    const SIZE: Option<usize> = Some(4 + 32 + 1 + 32 + 1);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
@@ -119,7 +119,7 @@ impl AnchorSerialize for WormholeTransceiverRegistration {
 }
 
 impl Readable for WormholeTransceiverRegistration {
-    const SIZE: Option<usize> = Some(2 + 32);
+    const SIZE: Option<usize> = Some(4 + 2 + 32);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
-- 
2.43.0


From 48474971a30fb315bf2efad86e6459a13c28584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:02 +0000
Subject: [PATCH 3/3] fix: announce the full encoded size of governance packets

---
 .../programs/wormhole-governance/src/instructions/governance.rs  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solana/programs/wormhole-governance/src/instructions/governance.rs b/solana/programs/wormhole-governance/src/instructions/governance.rs
index 1c92eb2..2b98ee0 100644
--- a/solana/programs/wormhole-governance/src/instructions/governance.rs
+++ b/solana/programs/wormhole-governance/src/instructions/governance.rs
@@ -229,6 +229,7 @@ impl Writeable for GovernanceMessage {
         Self::MODULE.len()
         + GovernanceAction::SIZE.unwrap() // action
         + u16::SIZE.unwrap() // chain
+        + <[u8; 32]>::SIZE.unwrap() // governance_program_id
         + <[u8; 32]>::SIZE.unwrap() // program_id
         + u16::SIZE.unwrap() // accounts_len
         + self.accounts.iter()  // accounts
-- 
2.43.0

