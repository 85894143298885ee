"use strict";
// @wormhole-foundation/sdk, over the chains of the test's world
/* global CLI */
const { open, b58enc, Missing } = require("../standins/base.cjs");
const base = require("../standins/sdk-base.cjs");
const defs = require("../standins/sdk-definitions.cjs");
const world = require("./world.cjs");
const { EvmAddress } = require("../standins/sdk-evm.cjs");
const chains = ["Solana", "Ethereum", "Bsc", "Polygon", "Avalanche", "Fantom", "Celo", "Moonbeam", "Arbitrum", "Optimism", "Base", "Sepolia", "ArbitrumSepolia", "BaseSepolia", "OptimismSepolia"];
const networks = ["Mainnet", "Testnet", "Devnet"];
const isChain = (c) => chains.includes(c);
const native = (chain, a) => (chain === "Solana" ? b58enc(a.toUniversalAddress().toUint8Array()) : new EvmAddress(a.toUniversalAddress()).toString());
class Wormhole {
  constructor(network, _platforms, overrides) { this.network = network; this.overrides = overrides; }
  getChain(chain) {
    return {
      chain, network: this.network, platform: base.chainToPlatform(chain),
      get config() {
        const c = CLI.world.configs?.[chain];
        if (c) return c;
        CLI.touched.push("chain configuration"); throw new Missing("chain configuration");
      },
      getRpc: async () => {
        if (!CLI.world.configs) throw new Missing("rpc");
        return world.connection;
      },
      getProtocol: async (name, contracts) => world.protocol(this.network, chain, name, contracts),
    };
  }
}
module.exports = open({
  ...base, ...defs, Wormhole, chains, networks, platforms: ["Solana", "Evm"], isChain,
  isNetwork: (n) => networks.includes(n),
  assertChain: (c) => { if (!isChain(c)) throw new Error(`Not a chain: ${c}`); },
  canonicalAddress: (a) => native(a.chain, a.address),
  nativeAddress: native,
  signSendWait: async (ctx, txs, signer) => {
    const out = [];
    for await (const t of txs) out.push({ chain: ctx.chain, txid: world.send(ctx, t, signer) });
    return out;
  },
}, "@wormhole-foundation/sdk");
