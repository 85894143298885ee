From 9ff6e09a3d58987ce28d1da6317589e2abe27e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 01/18] fix: TransceiverMessage::written_size counts every
 field it writes

The recipient manager address and the transceiver payload with its length
prefix were left out, so the reported size was too small.
---
 solana/modules/ntt-messages/src/transceiver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solana/modules/ntt-messages/src/transceiver.rs b/solana/modules/ntt-messages/src/transceiver.rs
index 798fc1b..5468beb 100644
--- a/solana/modules/ntt-messages/src/transceiver.rs
+++ b/solana/modules/ntt-messages/src/transceiver.rs
@@ -177,8 +177,11 @@ where
     fn written_size(&self) -> usize {
         4 // prefix
         + self.source_ntt_manager.len()
+        + self.recipient_ntt_manager.len()
         + u16::SIZE.unwrap() // length prefix
         + self.ntt_manager_payload.written_size()
+        + u16::SIZE.unwrap() // transceiver payload length
+        + self.transceiver_payload.len()
     }
 
     fn write<W>(&self, writer: &mut W) -> io::Result<()>
-- 
2.43.0


From f5ac923dcc66e7cb04db1b68341525d7f5293d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 02/18] fix: Wormhole transceiver info and registration sizes
 include the prefix

SIZE (and so written_size) left out the four prefix bytes that read and
write handle.
---
 solana/modules/ntt-messages/src/transceivers/wormhole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solana/modules/ntt-messages/src/transceivers/wormhole.rs b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
index a96feff..48db6b8 100644
--- a/solana/modules/ntt-messages/src/transceivers/wormhole.rs
+++ b/solana/modules/ntt-messages/src/transceivers/wormhole.rs
@@ -46,7 +46,7 @@ impl AnchorSerialize for WormholeTransceiverInfo {
 }
 
 impl Readable for WormholeTransceiverInfo {
-    const SIZE: Option<usize> = Some(32 + 1 + 32 + 1);
+    const SIZE: Option<usize> = Some(4 + 32 + 1 + 32 + 1);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
@@ -119,7 +119,7 @@ impl AnchorSerialize for WormholeTransceiverRegistration {
 }
 
 impl Readable for WormholeTransceiverRegistration {
-    const SIZE: Option<usize> = Some(2 + 32);
+    const SIZE: Option<usize> = Some(4 + 2 + 32);
 
     fn read<R>(reader: &mut R) -> std::io::Result<Self>
     where
-- 
2.43.0


From 73592e998723d643e5280c124d2b59c2955e5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 03/18] fix: length prefixes of type-prefixed payloads count
 the type byte

Payloads are written with write_payload, which adds a type byte for typed
payloads, but sized with written_size, which does not count it.
---
 solana/modules/ntt-messages/src/ntt.rs         | 5 +++--
 solana/modules/ntt-messages/src/ntt_manager.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/solana/modules/ntt-messages/src/ntt.rs b/solana/modules/ntt-messages/src/ntt.rs
index acebbad..9ce3069 100644
--- a/solana/modules/ntt-messages/src/ntt.rs
+++ b/solana/modules/ntt-messages/src/ntt.rs
@@ -77,7 +77,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NativeTokenTransfer<A> {
             + self.to.len()
             + ChainId::SIZE.unwrap()
             + if A::SIZE != Some(0) {
-                u16::SIZE.unwrap() + self.additional_payload.written_size()
+                u16::SIZE.unwrap() + self.additional_payload.payload_written_size()
             } else {
                 0
             }
@@ -102,7 +102,8 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NativeTokenTransfer<A> {
         to_chain.write(writer)?;
 
         if A::SIZE != Some(0) {
-            let len: u16 = u16::try_from(additional_payload.written_size()).expect("u16 overflow");
+            let len: u16 =
+                u16::try_from(additional_payload.payload_written_size()).expect("u16 overflow");
             len.write(writer)?;
             // TODO: ditto todo in transceiver.rs
             A::write_payload(additional_payload, writer)
diff --git a/solana/modules/ntt-messages/src/ntt_manager.rs b/solana/modules/ntt-messages/src/ntt_manager.rs
index 9107c88..ea1c53c 100644
--- a/solana/modules/ntt-messages/src/ntt_manager.rs
+++ b/solana/modules/ntt-messages/src/ntt_manager.rs
@@ -62,7 +62,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NttManagerMessage<A> {
         self.id.len()
             + self.sender.len()
             + u16::SIZE.unwrap() // payload length
-            + self.payload.written_size()
+            + self.payload.payload_written_size()
     }
 
     fn write<W>(&self, writer: &mut W) -> io::Result<()>
@@ -77,7 +77,7 @@ impl<A: TypePrefixedPayload + MaybeSpace> Writeable for NttManagerMessage<A> {
 
         id.write(writer)?;
         writer.write_all(sender)?;
-        let len: u16 = u16::try_from(payload.written_size()).expect("u16 overflow");
+        let len: u16 = u16::try_from(payload.payload_written_size()).expect("u16 overflow");
         len.write(writer)?;
         // TODO: ditto todo in transceiver.rs
         A::write_payload(payload, writer)
-- 
2.43.0


From f1bb1159cf04e12ded625ab4e2c4e89070aa9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 04/18] fix: GovernanceMessage::written_size counts the
 governance program id

---
 .../programs/wormhole-governance/src/instructions/governance.rs  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solana/programs/wormhole-governance/src/instructions/governance.rs b/solana/programs/wormhole-governance/src/instructions/governance.rs
index 1c92eb2..2b98ee0 100644
--- a/solana/programs/wormhole-governance/src/instructions/governance.rs
+++ b/solana/programs/wormhole-governance/src/instructions/governance.rs
@@ -229,6 +229,7 @@ impl Writeable for GovernanceMessage {
         Self::MODULE.len()
         + GovernanceAction::SIZE.unwrap() // action
         + u16::SIZE.unwrap() // chain
+        + <[u8; 32]>::SIZE.unwrap() // governance_program_id
         + <[u8; 32]>::SIZE.unwrap() // program_id
         + u16::SIZE.unwrap() // accounts_len
         + self.accounts.iter()  // accounts
-- 
2.43.0


From 4f2be0e0c69d326eca17eacaf1e93207b92ed7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 05/18] fix: GovernanceAction::Undefined writes the byte it is
 read from

It wrote nothing, although it reads as one zero byte and reports size one.
---
 .../programs/wormhole-governance/src/instructions/governance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solana/programs/wormhole-governance/src/instructions/governance.rs b/solana/programs/wormhole-governance/src/instructions/governance.rs
index 2b98ee0..df82fe3 100644
--- a/solana/programs/wormhole-governance/src/instructions/governance.rs
+++ b/solana/programs/wormhole-governance/src/instructions/governance.rs
@@ -371,7 +371,7 @@ impl Writeable for GovernanceAction {
         W: io::Write,
     {
         match self {
-            GovernanceAction::Undefined => Ok(()),
+            GovernanceAction::Undefined => 0u8.write(writer),
             GovernanceAction::EvmCall => 1u8.write(writer),
             GovernanceAction::SolanaCall => 2u8.write(writer),
         }
-- 
2.43.0


From 985673d7a5c5281fb5144ea76be0b3811f396d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:21 +0000
Subject: [PATCH 06/18] fix: pass every account transfer_ownership needs in the
 TypeScript client

createTransferOwnershipInstruction left out owner, upgradeLock, programData and
bpfLoaderUpgradeableProgram, so the instruction could never be built.
---
 solana/ts/lib/ntt.ts | 7 +++++++
 solana/ts/sdk/ntt.ts | 1 +
 2 files changed, 8 insertions(+)

diff --git a/solana/ts/lib/ntt.ts b/solana/ts/lib/ntt.ts
index c3507c1..49861d3 100644
--- a/solana/ts/lib/ntt.ts
+++ b/solana/ts/lib/ntt.ts
@@ -103,6 +103,7 @@ export namespace NTT {
       derivePda(["registered_transceiver", transceiver.toBytes()], programId);
     const lutAccount = (): PublicKey => derivePda("lut", programId);
     const lutAuthority = (): PublicKey => derivePda("lut_authority", programId);
+    const upgradeLock = (): PublicKey => derivePda("upgrade_lock", programId);
     const sessionAuthority = (
       sender: PublicKey,
       args: TransferArgs
@@ -135,6 +136,7 @@ export namespace NTT {
       registeredTransceiver,
       lutAccount,
       lutAuthority,
+      upgradeLock,
     };
   };
 
@@ -696,6 +698,7 @@ export namespace NTT {
   export async function createTransferOwnershipInstruction(
     program: Program<NttBindings.NativeTokenTransfer<IdlVersion>>,
     args: {
+      owner: PublicKey;
       newOwner: PublicKey;
     },
     pdas?: Pdas
@@ -705,7 +708,11 @@ export namespace NTT {
       .transferOwnership()
       .accounts({
         config: pdas.configAccount(),
+        owner: args.owner,
         newOwner: args.newOwner,
+        upgradeLock: pdas.upgradeLock(),
+        programData: programDataAddress(program.programId),
+        bpfLoaderUpgradeableProgram: BPF_LOADER_UPGRADEABLE_PROGRAM_ID,
       })
       .instruction();
   }
diff --git a/solana/ts/sdk/ntt.ts b/solana/ts/sdk/ntt.ts
index 3e8982d..c93b730 100644
--- a/solana/ts/sdk/ntt.ts
+++ b/solana/ts/sdk/ntt.ts
@@ -511,6 +511,7 @@ export class SolanaNtt<N extends Network, C extends SolanaChains>
   async *setOwner(newOwner: AnySolanaAddress, payer: AccountAddress<C>) {
     const sender = new SolanaAddress(payer).unwrap();
     const ix = await NTT.createTransferOwnershipInstruction(this.program, {
+      owner: sender,
       newOwner: new SolanaAddress(newOwner).unwrap(),
     });
 
-- 
2.43.0


From 04860e7d6b019d53c4728f7149f4666fabcc67ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:21 +0000
Subject: [PATCH 07/18] fix: request the gas dropoff the caller asked for in
 automatic transfers

createRequestRelayInstruction takes eth and scales it to gwei itself; passing gwei
requested 10^9 times the dropoff.
---
 solana/ts/lib/quoter.ts | 2 +-
 solana/ts/sdk/ntt.ts    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/solana/ts/lib/quoter.ts b/solana/ts/lib/quoter.ts
index 9105eac..e3cc194 100644
--- a/solana/ts/lib/quoter.ts
+++ b/solana/ts/lib/quoter.ts
@@ -25,7 +25,7 @@ import {
 
 //constants that must match ntt-quoter lib.rs / implementation:
 const USD_UNIT = 1e6;
-const GWEI_PER_ETH = 1e9;
+export const GWEI_PER_ETH = 1e9;
 export const WEI_PER_GWEI = 1e9;
 
 const SEED_PREFIX_INSTANCE = "instance";
diff --git a/solana/ts/sdk/ntt.ts b/solana/ts/sdk/ntt.ts
index c93b730..5545661 100644
--- a/solana/ts/sdk/ntt.ts
+++ b/solana/ts/sdk/ntt.ts
@@ -48,7 +48,7 @@ import {
   getNttProgram,
   getTransceiverProgram,
 } from "../lib/bindings.js";
-import { NTT, NttQuoter, WEI_PER_GWEI } from "../lib/index.js";
+import { GWEI_PER_ETH, NTT, NttQuoter, WEI_PER_GWEI } from "../lib/index.js";
 import { parseVersion } from "../lib/utils.js";
 
 export class SolanaNttWormholeTransceiver<
@@ -872,8 +872,8 @@ export class SolanaNtt<N extends Network, C extends SolanaChains>
         outboxItem.publicKey,
         destination.chain,
         Number(fee) / LAMPORTS_PER_SOL,
-        // NOTE: quoter expects gas dropoff to be in terms of gwei
-        Number(options.gasDropoff ?? 0n) / WEI_PER_GWEI
+        // NOTE: gas dropoff is given in wei, the quoter expects it in eth
+        Number(options.gasDropoff ?? 0n) / (WEI_PER_GWEI * GWEI_PER_ETH)
       );
       tx.add(relayIx);
     }
-- 
2.43.0


From a5cadd095637648be2d4fc209372b850b80dca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:21 +0000
Subject: [PATCH 08/18] fix: parse program data accounts with their type tag
 and contents

programDataLayout skipped the loader's 4 byte account type and the program bytes
after the header, so the quoter's initialize instruction could never be built.
---
 solana/ts/lib/utils.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/solana/ts/lib/utils.ts b/solana/ts/lib/utils.ts
index bfda734..d4734d8 100644
--- a/solana/ts/lib/utils.ts
+++ b/solana/ts/lib/utils.ts
@@ -43,6 +43,14 @@ export const pubKeyConversion = {
 
 //neither anchor nor solana web3 have a built-in way to parse this, because ofc they don't
 export const programDataLayout = [
+  {
+    name: "accountType",
+    binary: "uint",
+    endianness: "little",
+    size: 4,
+    custom: 3, // UpgradeableLoaderState::ProgramData
+    omit: true,
+  },
   { name: "slot", binary: "uint", endianness: "little", size: 8 },
   {
     name: "upgradeAuthority",
@@ -64,6 +72,7 @@ export const programDataLayout = [
       ],
     ],
   },
+  { name: "programBytes", binary: "bytes" },
 ] as const satisfies Layout;
 export const programVersionLayout = [
   { name: "length", binary: "uint", endianness: "little", size: 4 },
-- 
2.43.0


From 5d6a01f60faa80d6ae6801bb738a9fd6a824ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:21 +0000
Subject: [PATCH 09/18] fix: pass the fee recipient when closing a relay
 request

close_relay needs the fee recipient account; without it the instruction could not be built.
---
 solana/ts/lib/quoter.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solana/ts/lib/quoter.ts b/solana/ts/lib/quoter.ts
index e3cc194..58eb90b 100644
--- a/solana/ts/lib/quoter.ts
+++ b/solana/ts/lib/quoter.ts
@@ -397,11 +397,14 @@ export class NttQuoter {
     authority: PublicKey,
     outboxItem: PublicKey
   ) {
+    const { feeRecipient } = await this.getInstance();
+
     return this.program.methods
       .closeRelay()
       .accounts({
         authority,
         instance: this.instance,
+        feeRecipient,
         relayRequest: this.relayRequestPda(outboxItem),
       })
       .instruction();
-- 
2.43.0


From 76618d902c28cf05c85f74b83c99ec1d7746df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:21 +0000
Subject: [PATCH 10/18] fix: report relaying to a paused chain as unavailable

A paused chain has a base price of u64::MAX, which U64.from could not convert, so
isRelayEnabled threw; quoteDeliveryPrice did not await its answer.
---
 solana/ts/lib/utils.ts | 3 ++-
 solana/ts/sdk/ntt.ts   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/solana/ts/lib/utils.ts b/solana/ts/lib/utils.ts
index d4734d8..c0e076d 100644
--- a/solana/ts/lib/utils.ts
+++ b/solana/ts/lib/utils.ts
@@ -90,7 +90,8 @@ export const U64 = {
 
     return ret;
   },
-  from: (amount: BN, unit: number) => amount.toNumber() / unit,
+  // via string, because BN.toNumber throws for values above 53 bits (e.g. U64.MAX)
+  from: (amount: BN, unit: number) => Number(amount.toString()) / unit,
 };
 
 type Seed = Uint8Array | string;
diff --git a/solana/ts/sdk/ntt.ts b/solana/ts/sdk/ntt.ts
index 5545661..a425720 100644
--- a/solana/ts/sdk/ntt.ts
+++ b/solana/ts/sdk/ntt.ts
@@ -535,7 +535,7 @@ export class SolanaNtt<N extends Network, C extends SolanaChains>
     options: Ntt.TransferOptions
   ): Promise<bigint> {
     if (!this.quoter) throw new Error("Quoter not available");
-    if (!this.quoter.isRelayEnabled(destination))
+    if (!(await this.quoter.isRelayEnabled(destination)))
       throw new Error("Relay not enabled");
 
     return await this.quoter.quoteDeliveryPrice(
-- 
2.43.0


From 2c38523ace547ca8a4481963fdf68241d959e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:10 +0000
Subject: [PATCH 11/18] fix: EVM client reports a queued inbound transfer's
 amount in token units

getInboundQueuedTransfer returned the packed TrimmedAmount (uint72) of the contract as the amount.
---
 evm/ts/src/ntt.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evm/ts/src/ntt.ts b/evm/ts/src/ntt.ts
index 07b4cb8..712bc64 100644
--- a/evm/ts/src/ntt.ts
+++ b/evm/ts/src/ntt.ts
@@ -580,9 +580,12 @@ export class EvmNtt<N extends Network, C extends EvmChains>
     if (queuedTransfer.txTimestamp > 0n) {
       const { recipient, amount, txTimestamp } = queuedTransfer;
       const duration = await this.getRateLimitDuration();
+      // the contract returns a packed TrimmedAmount
+      const trimmedAmount: TrimmedAmount = decodeTrimmedAmount(amount);
+      const tokenDecimals = await this.getTokenDecimals();
       return {
         recipient: new EvmAddress(recipient) as AccountAddress<C>,
-        amount: amount,
+        amount: untrim(trimmedAmount, tokenDecimals),
         rateLimitExpiryTimestamp: Number(txTimestamp + duration),
       };
     }
-- 
2.43.0


From d63054edb49c1878e1854d0e86680d9b210319db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 12/18] fix: write limits below a tenth of a token with leading
 zeros (cli)

5 base units of a 9-decimal token were written as 0.5, so pull, clone and
status showed, and push would have set, a limit 10^8 times too large.
---
 cli/src/index.ts | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cli/src/index.ts b/cli/src/index.ts
index 0a1e98c..3033b1a 100755
--- a/cli/src/index.ts
+++ b/cli/src/index.ts
@@ -1840,15 +1840,10 @@ async function nttFromManager<N extends Network, C extends Chain>(
 }
 
 function formatNumber(num: bigint, decimals: number) {
-    if (num === 0n) {
-        return "0." + "0".repeat(decimals);
-    }
-    const str = num.toString();
-    const formatted = str.slice(0, -decimals) + "." + str.slice(-decimals);
-    if (formatted.startsWith(".")) {
-        return "0" + formatted;
-    }
-    return formatted;
+    // at least one digit before the decimal point and exactly `decimals` after it
+    const str = num.toString().padStart(decimals + 1, "0");
+    const point = str.length - decimals;
+    return str.slice(0, point) + "." + str.slice(point);
 }
 
 function checkNumberFormatting(formatted: string, decimals: number): boolean {
-- 
2.43.0


From 11138d900f82d937f757e245c7573a1a999229f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:57 +0000
Subject: [PATCH 13/18] fix: config get-chain reads the scope it was asked for
 (cli)

argv.scope does not exist, so no value was ever found.
---
 cli/src/configuration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/configuration.ts b/cli/src/configuration.ts
index 77ea497..2554be5 100644
--- a/cli/src/configuration.ts
+++ b/cli/src/configuration.ts
@@ -97,7 +97,7 @@ export const command = (args: yargs.Argv<{}>) => args
             const scope = resolveScope(argv.local, argv.global);
             assertChainConfigKey(argv.key);
             assertChain(argv.chain);
-            const val = getChainConfig(argv.scope as Scope, argv.chain, argv.key);
+            const val = getChainConfig(scope, argv.chain, argv.key);
             if (!val) {
                 console.error("undefined");
             } else {
-- 
2.43.0


From e0fee9a426be46df157da572607ad6d7c708ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 14/18] fix: accept --local in config commands (cli)

--global defaulted to true, so --local was always refused as contradictory.
---
 cli/src/configuration.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cli/src/configuration.ts b/cli/src/configuration.ts
index 2554be5..1c66a39 100644
--- a/cli/src/configuration.ts
+++ b/cli/src/configuration.ts
@@ -53,9 +53,8 @@ const options = {
         default: false,
     },
     global: {
-        describe: "Use global configuration",
+        describe: "Use global configuration (the default unless --local is given)",
         type: "boolean",
-        default: true,
     }
 } as const;
 export const command = (args: yargs.Argv<{}>) => args
@@ -186,14 +185,14 @@ export function get(
         console.error(`Please set it using 'ntt config set-chain ${chain} ${key} <value>' or by setting the environment variable ${varName}`);
     }
 }
-function resolveScope(local: boolean, global: boolean) {
+function resolveScope(local: boolean, global: boolean | undefined): Scope {
     if (local && global) {
         throw new Error("Cannot specify both --local and --global");
     }
     if (local) {
         return "local";
     }
-    if (global) {
+    if (global ?? true) {
         return "global";
     }
     throw new Error("Must specify either --local or --global");
-- 
2.43.0


From aaff2c5694543206fe556602a55154952caef88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 15/18] fix: refuse deprecated testnet chains that have a
 Sepolia successor (cli)

The chain was compared with its own name plus Sepolia, which never matches.
---
 cli/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/index.ts b/cli/src/index.ts
index 3033b1a..2508f91 100755
--- a/cli/src/index.ts
+++ b/cli/src/index.ts
@@ -2025,7 +2025,7 @@ function validateChain<N extends Network, C extends Chain>(network: N, chain: C)
             process.exit(1);
         }
         // if on testnet, and the chain has a *Sepolia counterpart, use that instead
-        if (chains.find((c) => c === `${c}Sepolia`)) {
+        if (chains.find((c) => c === `${chain}Sepolia`)) {
             console.error(`Chain ${chain} is deprecated. Use ${chain}Sepolia instead.`);
             process.exit(1);
         }
-- 
2.43.0


From 86da8c2be69e68fb76dde4773be141c79723cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:54 +0000
Subject: [PATCH 16/18] fix: --latest picks the numerically latest version
 (cli)

---
 cli/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/index.ts b/cli/src/index.ts
index 2508f91..77094e1 100755
--- a/cli/src/index.ts
+++ b/cli/src/index.ts
@@ -1999,7 +1999,8 @@ function resolveVersion(latest: boolean, ver: string | undefined, local: boolean
     }
     if (latest) {
         const available = getAvailableVersions(platform);
-        return available.sort().reverse()[0];
+        // compare numerically: 1.10.0 is later than 1.9.0
+        return available.sort((a, b) => a.localeCompare(b, "en", { numeric: true })).reverse()[0];
     } else if (ver) {
         return ver;
     } else {
-- 
2.43.0


From 6cb28e05a3ce72f36b5ed48bbe00652627d352f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:54 +0000
Subject: [PATCH 17/18] fix: --latest without any released version is an error,
 not a local build (cli)

---
 cli/src/index.ts | 7 ++++++-
 cli/src/tag.ts   | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cli/src/index.ts b/cli/src/index.ts
index 77094e1..071078c 100755
--- a/cli/src/index.ts
+++ b/cli/src/index.ts
@@ -2000,7 +2000,12 @@ function resolveVersion(latest: boolean, ver: string | undefined, local: boolean
     if (latest) {
         const available = getAvailableVersions(platform);
         // compare numerically: 1.10.0 is later than 1.9.0
-        return available.sort((a, b) => a.localeCompare(b, "en", { numeric: true })).reverse()[0];
+        const latestVersion = available.sort((a, b) => a.localeCompare(b, "en", { numeric: true })).reverse()[0];
+        if (!latestVersion) {
+            console.error(`No released version found for ${platform}`);
+            process.exit(1);
+        }
+        return latestVersion;
     } else if (ver) {
         return ver;
     } else {
diff --git a/cli/src/tag.ts b/cli/src/tag.ts
index ba32014..4ed3e2f 100644
--- a/cli/src/tag.ts
+++ b/cli/src/tag.ts
@@ -5,7 +5,7 @@ export function getAvailableVersions<P extends Platform>(platform: P): string[]
     const tags = execSync(`git tag --list 'v*+${platform.toLowerCase()}'`, {
         stdio: ["ignore", null, null]
     }).toString().trim().split("\n")
-    return tags.map(tag => tag.split("+")[0].slice(1))
+    return tags.filter(tag => tag !== "").map(tag => tag.split("+")[0].slice(1))
 }
 
 export function getGitTagName<P extends Platform>(platform: P, version: string): string | undefined {
-- 
2.43.0


From 7b4cc2e80082daa9eea73ee3d31290448c43d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:54 +0000
Subject: [PATCH 18/18] fix: wait for the answer before continuing an
 interrupted deployment (cli)

---
 cli/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/index.ts b/cli/src/index.ts
index 071078c..c54a042 100755
--- a/cli/src/index.ts
+++ b/cli/src/index.ts
@@ -1378,7 +1378,7 @@ async function deploySolana<N extends Network, C extends SolanaChains>(
             execSync(`solana-keygen new -o buffer.json --no-bip39-passphrase`);
         } else {
             console.info("buffer.json already exists.")
-            askForConfirmation("Do you want continue an exiting deployment? If not, delete the buffer.json file and run the command again.");
+            await askForConfirmation("Do you want continue an exiting deployment? If not, delete the buffer.json file and run the command again.");
         }
 
         const deployCommand = [
-- 
2.43.0

