"use strict";
// reading a token's decimals is all the tool asks of ethers
/* global CLI */
const { open } = require("../standins/base.cjs");
class JsonRpcProvider { constructor(url) { this.url = url; } }
class Contract {
  constructor(address, _abi, provider) { this.address = address; this.provider = provider; }
  async decimals() {
    const t = CLI.world.tokens?.[`${this.provider.url} ${this.address}`];
    if (t === undefined) throw new Error("call revert exception");
    return BigInt(t);
  }
}
const ethers = open({ JsonRpcProvider, Contract }, "ethers");
module.exports = open({ ethers, JsonRpcProvider, Contract }, "ethers");
