"use strict";
const { open } = require("./base.cjs");
const { PublicKey } = require("./web3.cjs");
const pda = (seeds, p) => PublicKey.findProgramAddressSync(seeds.map((s) => (typeof s === "string" ? Buffer.from(s) : s)), new PublicKey(p))[0];
const utils = open({
  derivePostedVaaKey: (wh, hash) => pda(["PostedVAA", hash], wh),
  deriveWormholeEmitterKey: (p) => pda(["emitter"], p),
  deriveWormholeBridgeDataKey: (wh) => pda(["Bridge"], wh),
  deriveFeeCollectorKey: (wh) => pda(["fee_collector"], wh),
  deriveEmitterSequenceKey: (e, wh) => pda(["Sequence", new PublicKey(e).b], wh),
  getWormholeDerivedAccounts: (cpi, wh) => {
    const wormholeEmitter = pda(["emitter"], cpi);
    return { wormholeEmitter, wormholeBridge: pda(["Bridge"], wh), wormholeFeeCollector: pda(["fee_collector"], wh), wormholeSequence: pda(["Sequence", wormholeEmitter.b], wh) };
  },
}, "sdk-solana-core utils");
class SolanaWormholeCore {
  constructor(_n, _c, connection, contracts) {
    this.connection = connection;
    this.address = contracts.coreBridge;
  }
  async *postVaa() {}
}
module.exports = open({ utils, SolanaWormholeCore }, "@wormhole-foundation/sdk-solana-core");
