"use strict";
// @solana/web3.js, as far as the client library uses it
const { open, b58enc, b58dec, onCurve, sha256, concat, eq } = require("./base.cjs");
const cache = new Map();
class PublicKey {
  constructor(v) {
    if (v instanceof PublicKey) this.b = v.b;
    else if (typeof v === "string") {
      const d = b58dec(v);
      if (d.length > 32) throw new Error("Invalid public key input");
      const b = new Uint8Array(32);
      b.set(d, 32 - d.length);
      if (d.length !== 32) throw new Error("Invalid public key input");
      this.b = b;
    } else if (v && typeof v.length === "number") {
      if (v.length > 32) throw new Error("Invalid public key input");
      const b = new Uint8Array(32);
      b.set(Array.from(v), 32 - v.length);
      this.b = b;
    } else if (typeof v === "number" || typeof v === "bigint") {
      this.b = new Uint8Array(Buffer.from(v.toString(16).padStart(64, "0"), "hex"));
    } else throw new Error("Invalid public key input");
  }
  toBytes() { return new Uint8Array(this.b); }
  toBuffer() { return Buffer.from(this.b); }
  toBase58() { return b58enc(this.b); }
  toString() { return this.toBase58(); }
  toJSON() { return this.toBase58(); }
  equals(o) { return eq(this.b, o.b); }
  static isOnCurve(v) { return onCurve(new PublicKey(v).b); }
  static createProgramAddressSync(seeds, programId) {
    if (seeds.some((s) => s.length > 32)) throw new TypeError("Max seed length exceeded");
    const h = sha256(concat(...seeds, programId.b, Buffer.from("ProgramDerivedAddress")));
    if (onCurve(h)) throw new Error("Invalid seeds, address must fall off the curve");
    return new PublicKey(h);
  }
  static findProgramAddressSync(seeds, programId) {
    const key = Buffer.from(concat(programId.b, ...seeds.map((s) => concat([s.length], s)))).toString("latin1");
    const hit = cache.get(key);
    if (hit) return hit;
    if (seeds.some((s) => s.length > 32)) throw new TypeError("Max seed length exceeded");
    for (let n = 255; n > 0; n--) {
      const h = sha256(concat(...seeds, [n], programId.b, Buffer.from("ProgramDerivedAddress")));
      if (!onCurve(h)) {
        const r = [new PublicKey(h), n];
        if (cache.size > 50000) cache.clear();
        cache.set(key, r);
        return r;
      }
    }
    throw new Error("Unable to find a viable program address nonce");
  }
  static async findProgramAddress(s, p) { return PublicKey.findProgramAddressSync(s, p); }
  static async createProgramAddress(s, p) { return PublicKey.createProgramAddressSync(s, p); }
}
PublicKey.default = new PublicKey("11111111111111111111111111111111");
let counter = 0;
class Keypair {
  constructor(k) { this.publicKey = k; this.secretKey = new Uint8Array(64); }
  static generate() { return new Keypair(new PublicKey(sha256(Buffer.from(`keypair ${Keypair.salt} ${counter++}`)))); }
  static fromSecretKey(s) {
    if (s.length !== 64) throw new Error("bad secret key size");
    const k = new Keypair(new PublicKey(s.slice(32)));
    k.secretKey = s;
    return k;
  }
  static reset(salt) { counter = 0; Keypair.salt = salt; }
}
class TransactionInstruction {
  constructor(o) { this.keys = o.keys; this.programId = o.programId; this.data = o.data ?? Buffer.alloc(0); }
}
class Transaction {
  constructor(o) { Object.assign(this, o); this.instructions = []; this.signatures = []; }
  add(...xs) {
    for (const x of xs.flat()) this.instructions.push(...(x.instructions ?? [x]));
    return this;
  }
}
class TransactionMessage {
  constructor(o) { Object.assign(this, o); }
  compileToV0Message(luts) { return { instructions: this.instructions, payerKey: this.payerKey, luts: luts ?? [] }; }
  compileToLegacyMessage() { return { instructions: this.instructions, payerKey: this.payerKey }; }
}
class VersionedTransaction { constructor(message) { this.message = message; this.signatures = []; } sign() {} }
class AddressLookupTableAccount { constructor(o) { Object.assign(this, o); } }
const SystemProgram = { programId: new PublicKey("11111111111111111111111111111111") };
const LUT = new PublicKey("AddressLookupTab1e1111111111111111111111111");
const AddressLookupTableProgram = {
  programId: LUT,
  createLookupTable({ authority, payer, recentSlot }) {
    const s = Buffer.alloc(8);
    s.writeBigUInt64LE(BigInt(recentSlot));
    const [k] = PublicKey.findProgramAddressSync([authority.b, s], LUT);
    return [new TransactionInstruction({ keys: [], programId: LUT }), k];
  },
};
class Connection {}
class ComputeBudgetProgram {
  static setComputeUnitLimit() { return new TransactionInstruction({ keys: [], programId: ComputeBudgetProgram.programId }); }
  static setComputeUnitPrice() { return new TransactionInstruction({ keys: [], programId: ComputeBudgetProgram.programId }); }
}
ComputeBudgetProgram.programId = new PublicKey("ComputeBudget111111111111111111111111111111");
module.exports = open({
  PublicKey, Keypair, Transaction, TransactionInstruction, TransactionMessage, VersionedTransaction, AddressLookupTableAccount,
  AddressLookupTableProgram, SystemProgram, Connection, ComputeBudgetProgram,
  LAMPORTS_PER_SOL: 1000000000,
  SYSVAR_CLOCK_PUBKEY: new PublicKey("SysvarC1ock11111111111111111111111111111111"),
  SYSVAR_RENT_PUBKEY: new PublicKey("SysvarRent111111111111111111111111111111111"),
}, "@solana/web3.js");
