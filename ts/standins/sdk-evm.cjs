"use strict";
const { open } = require("./base.cjs");
const { getAddress, Contract } = require("./ethers.cjs");
const { UniversalAddress } = require("./sdk-definitions.cjs");
class EvmAddress {
  constructor(a) {
    if (a instanceof EvmAddress) this.address = a.address;
    else if (a instanceof UniversalAddress) this.address = getAddress("0x" + Buffer.from(a.toUint8Array().slice(12)).toString("hex"));
    else if (a instanceof Uint8Array) this.address = getAddress("0x" + Buffer.from(a.length === 32 ? a.slice(12) : a).toString("hex"));
    else this.address = getAddress(a);
  }
  unwrap() { return this.address; }
  toNative() { return this; }
  toUint8Array() { return new Uint8Array(Buffer.from(this.address.slice(2), "hex")); }
  toUniversalAddress() { return new UniversalAddress(this.address); }
  toString() { return this.address; }
  equals(o) { return o instanceof EvmAddress ? this.address === o.address : o.equals(this.toUniversalAddress()); }
}
class EvmUnsignedTransaction {
  constructor(transaction, network, chain, description, parallelizable) {
    Object.assign(this, { transaction, network, chain, description, parallelizable });
  }
}
const ERC20 = [
  "function allowance(address owner, address spender) view returns (uint256)", "function approve(address spender, uint256 amount) returns (bool)",
  "function decimals() view returns (uint8)", "function balanceOf(address owner) view returns (uint256)",
];
const EvmPlatform = {
  getTokenImplementation: (provider, token) => new Contract(token, ERC20, provider),
  getDecimals: async (_chain, provider, token) => Number(await new Contract(token, ERC20, provider).decimals()),
  chainFromRpc: async (provider) => provider.networkAndChain,
};
module.exports = open({
  EvmAddress, EvmUnsignedTransaction, EvmPlatform,
  addChainId: (tx, chainId) => Object.assign(tx, { chainId }), addFrom: (tx, from) => Object.assign(tx, { from }),
  _platform: "Evm",
}, "@wormhole-foundation/sdk-evm");
