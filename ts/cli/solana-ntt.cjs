"use strict";
/* global CLI */
const { open } = require("../standins/base.cjs");
// the addresses are the repository's own
const lib = () => require("REPO-SOLANA-LIB").NTT;
const NTT = { pdas: (p) => lib().pdas(p), transceiverPdas: (p) => lib().transceiverPdas(p) };
class SolanaNtt {
  constructor(network, chain, connection, contracts, version) {
    Object.assign(this, { network, chain, connection, contracts, version });
    this.pdas = NTT.pdas(contracts.ntt.manager);
  }
  async *initialize(payer, { mint, mode, outboundLimit }) {
    const hex = (a) => Buffer.from(a.toUniversalAddress().toUint8Array()).toString("hex");
    yield {
      chain: this.chain, payer: hex(payer), op: [this.chain, "initialize", this.contracts.ntt.manager, mint.toBase58(), mode, outboundLimit.toString(), this.version ?? null],
      apply: () => { const p = CLI.world.pending; if (!p || p.chain !== this.chain || p.fails) throw Object.assign(new Error("initialization failed"), { logs: [] }); CLI.world.chains[this.chain] = p.state; delete CLI.world.pending; },
    };
  }
}
module.exports = open({ NTT, SolanaNtt }, "@wormhole-foundation/sdk-solana-ntt");
