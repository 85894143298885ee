"use strict";
// @wormhole-foundation/sdk-definitions, as far as the NTT packages use it
const { open, b58dec, keccak256, Missing } = require("./base.cjs");
const base = require("./sdk-base.cjs");
class UniversalAddress {
  constructor(b) {
    if (b instanceof UniversalAddress) this.b = b.b;
    else if (typeof b === "string") this.b = new Uint8Array(Buffer.from(b.replace(/^0x/, "").padStart(64, "0"), "hex"));
    else this.b = new Uint8Array(b);
    if (this.b.length !== 32) throw new Error(`Invalid universal address of ${this.b.length} bytes`);
  }
  toUint8Array() { return this.b; }
  get address() { return this.b; }
  toUniversalAddress() { return this; }
  toString() { return "0x" + Buffer.from(this.b).toString("hex"); }
  unwrap() { return this.b; }
  toNative() { return this; }
  equals(o) { return Buffer.from(this.b).equals(Buffer.from(o.toUniversalAddress().b)); }
}
const layoutItems = {
  universalAddressItem: { binary: "bytes", size: 32, custom: { to: (b) => new UniversalAddress(b), from: (a) => a.toUint8Array() } },
  chainItem: () => ({ binary: "uint", size: 2, custom: { to: (n) => base.toChain(n), from: (c) => base.toChainId(c) } }),
  amountItem: { binary: "uint", size: 32 },
};
const toUniversal = (chain, a) => {
  if (typeof a === "string") return new UniversalAddress(chain === "Solana" ? b58dec(a) : a);
  if (a instanceof Uint8Array) return new UniversalAddress(a);
  return a.toUniversalAddress();
};
const registry = {};
module.exports = open({
  UniversalAddress, layoutItems, toUniversal, keccak256, registry,
  registerPayloadTypes: (p, xs) => xs.forEach(([n, l]) => (registry[`${p}:${n}`] = l)),
  deliveryInstructionLayout: () => [],
  registerProtocol: () => {},
  protocolIsRegistered: () => false,
  universalAddress: (a) => toUniversal(a.chain, a.address).toString(),
  serialize: (v) => { if (!(v.bytes instanceof Uint8Array)) throw new Missing("serialization of messages"); return v.bytes; },
  canonicalAddress: (a) => a.address.toString(),
}, "@wormhole-foundation/sdk-definitions");
