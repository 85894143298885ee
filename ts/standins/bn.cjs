"use strict";
// bn.js, as far as the client library and Anchor use it
class BN {
  constructor(v, base, endian) {
    if (v instanceof BN) this.v = v.v;
    else if (typeof v === "bigint") this.v = v;
    else if (typeof v === "number") {
      if (!Number.isFinite(v) || Math.abs(v) >= 2 ** 53) throw new Error("Assertion failed");
      this.v = BigInt(Math.trunc(v));
    } else if (typeof v === "string") {
      if (base === 16 || base === "hex") this.v = BigInt("0x" + (v || "0"));
      else this.v = BigInt(v);
    } else if (v && typeof v.length === "number") {
      let a = Array.from(v);
      if (base === "le" || endian === "le") a = a.reverse();
      this.v = a.reduce((n, x) => (n << 8n) | BigInt(x), 0n);
    } else this.v = 0n;
  }
  static isBN(x) { return x instanceof BN; }
  static max(a, b) { return a.v >= b.v ? a : b; }
  static min(a, b) { return a.v <= b.v ? a : b; }
  o(x) { return x instanceof BN ? x.v : BigInt(x); }
  toString(base, pad) {
    const s = this.v.toString(base === "hex" ? 16 : base || 10);
    return pad ? s.padStart(Math.ceil(s.length / pad) * pad, "0") : s;
  }
  toJSON() { return this.v.toString(16); }
  toNumber() {
    if (this.bitLength() > 53) throw new Error("Number can only safely store up to 53 bits");
    return Number(this.v);
  }
  toArray(endian, length) {
    let h = this.v.toString(16);
    if (h.length % 2) h = "0" + h;
    let a = Array.from(Buffer.from(h, "hex"));
    if (length !== undefined) {
      if (a.length > length) throw new Error("byte array longer than desired length");
      while (a.length < length) a.unshift(0);
    }
    return endian === "le" ? a.reverse() : a;
  }
  toArrayLike(T, endian, length) { return T.from(this.toArray(endian, length)); }
  toBuffer(endian, length) { return Buffer.from(this.toArray(endian, length)); }
  bitLength() { const a = this.v < 0n ? -this.v : this.v; return a === 0n ? 0 : a.toString(2).length; }
  byteLength() { return Math.ceil(this.bitLength() / 8); }
  isNeg() { return this.v < 0n; }
  isZero() { return this.v === 0n; }
  clone() { return new BN(this); }
  neg() { return new BN(-this.v); }
  abs() { return new BN(this.v < 0n ? -this.v : this.v); }
}
const bin = { add: (a, b) => a + b, sub: (a, b) => a - b, mul: (a, b) => a * b, div: (a, b) => a / b, mod: (a, b) => a % b, pow: (a, b) => a ** b, shln: (a, b) => a << b, shrn: (a, b) => a >> b, and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b };
for (const [k, f] of Object.entries(bin)) {
  BN.prototype[k] = function (x) { return new BN(f(this.v, this.o(x))); };
  BN.prototype[k + "n"] = BN.prototype[k + "n"] || function (x) { return new BN(f(this.v, BigInt(x))); };
  BN.prototype["i" + k] = function (x) { this.v = f(this.v, this.o(x)); return this; };
}
const cmp = { eq: (a, b) => a === b, gt: (a, b) => a > b, gte: (a, b) => a >= b, lt: (a, b) => a < b, lte: (a, b) => a <= b, cmp: (a, b) => (a < b ? -1 : a > b ? 1 : 0) };
for (const [k, f] of Object.entries(cmp)) {
  BN.prototype[k] = function (x) { return f(this.v, this.o(x)); };
  BN.prototype[k + "n"] = BN.prototype[k];
}
module.exports = BN;
module.exports.BN = BN;
module.exports.default = BN;
