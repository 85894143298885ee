"use strict";
// @wormhole-foundation/sdk-connect re-exports the other packages
const { open } = require("./base.cjs");
const TransferState = { Failed: -1, Created: 1, SourceInitiated: 2, SourceFinalized: 3, Attested: 4, Refunded: 5, DestinationInitiated: 6, DestinationQueued: 7, DestinationFinalized: 8 };
const is = (s) => (r) => r.state === TransferState[s];
class Route { constructor(wh) { this.wh = wh; } async *track() {} async isAvailable() { return true; } }
class AutomaticRoute extends Route { static IS_AUTOMATIC = true; }
class ManualRoute extends Route { static IS_AUTOMATIC = false; }
class FinalizableRoute extends ManualRoute {}
class Native { // an address in a chain's own form
  constructor(s) { this.s = s; }
  toString() { return this.s; }
  unwrap() { return this.s; }
}
module.exports = open({
  ...require("./sdk-base.cjs"), ...require("./sdk-definitions.cjs"),
  Wormhole: {
    tokenId: (chain, address) => ({ chain, address }),
    parseAddress: (chain, address) => new Native(address),
    chainAddress: (chain, address) => ({ chain, address: new Native(address) }),
  },
  routes: { Route, AutomaticRoute, ManualRoute, FinalizableRoute },
  finality: { estimateFinalityTime: () => 1000 },
  TransferState,
  isSourceInitiated: is("SourceInitiated"), isSourceFinalized: is("SourceFinalized"), isAttested: is("Attested"),
  isRedeemed: is("DestinationInitiated"), isDestinationQueued: is("DestinationQueued"), isCompleted: is("DestinationFinalized"),
  isFailed: is("Failed"), isRefunded: is("Refunded"),
  signSendWait: async (chain, txs, signer) => {
    const out = [];
    for await (const t of txs) out.push({ chain: chain.chain, txid: t });
    return out;
  },
}, "@wormhole-foundation/sdk-connect");
