"use strict";
const { open } = require("./base.cjs");
const { PublicKey } = require("./web3.cjs");
const { UniversalAddress } = require("./sdk-definitions.cjs");
class SolanaAddress {
  constructor(a) {
    if (a instanceof SolanaAddress) this.k = a.k;
    else if (a instanceof UniversalAddress) this.k = new PublicKey(a.toUint8Array());
    else this.k = new PublicKey(a);
  }
  unwrap() { return this.k; }
  toUint8Array() { return this.k.toBytes(); }
  toUniversalAddress() { return new UniversalAddress(this.k.toBytes()); }
  toString() { return this.k.toBase58(); }
}
class SolanaUnsignedTransaction {
  constructor(transaction, network, chain, description, parallelizable) {
    Object.assign(this, { transaction, network, chain, description, parallelizable });
  }
}
const SolanaPlatform = {
  getDecimals: async (_chain, connection, token) => (await connection.getAccountInfo(new PublicKey(token))).data[44],
};
module.exports = open({ SolanaAddress, SolanaUnsignedTransaction, SolanaPlatform }, "@wormhole-foundation/sdk-solana");
