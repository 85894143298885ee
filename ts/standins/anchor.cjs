"use strict";
// @coral-xyz/anchor 0.29: instructions and accounts encoded after the IDL
const { open, sha256 } = require("./base.cjs");
const web3 = require("./web3.cjs");
const BN = require("./bn.cjs");
const { PublicKey } = web3;

const snake = (s) => s.replace(/([a-z0-9])([A-Z])/g, "$1_$2").toLowerCase();
const camel = (s) => (/^[A-Z]+$/.test(s) ? s.toLowerCase() : s[0].toLowerCase() + s.slice(1).replace(/_([a-z])/g, (_, c) => c.toUpperCase()));
const pascal = (s) => s[0].toUpperCase() + s.slice(1);
const INTS = { u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, i8: 1, i16: 2, i32: 4, i64: 8, i128: 16 };
const big = (v) => (BN.isBN(v) ? v.v : BigInt(v));

function find(idl, name) {
  const t = [...(idl.types ?? []), ...(idl.accounts ?? [])].find((t) => t.name === name || pascal(t.name) === pascal(name));
  if (!t) throw new Error(`Type not found: ${name}`);
  return t.type;
}
function enc(idl, t, v, out) {
  if (typeof t === "string") {
    if (t in INTS) {
      const n = INTS[t];
      let x = big(v);
      const lo = t[0] === "i" ? -(1n << BigInt(8 * n - 1)) : 0n;
      const hi = t[0] === "i" ? 1n << BigInt(8 * n - 1) : 1n << BigInt(8 * n);
      if (x < lo || x >= hi) throw new RangeError(`The value is out of range for ${t}: ${x}`);
      x = BigInt.asUintN(8 * n, x);
      for (let i = 0; i < n; i++) {
        out.push(Number(x & 255n));
        x >>= 8n;
      }
    } else if (t === "bool") out.push(v ? 1 : 0);
    else if (t === "publicKey" || t === "pubkey") out.push(...new PublicKey(v).b);
    else if (t === "bytes" || t === "string") {
      const b = t === "string" ? Buffer.from(v) : v;
      enc(idl, "u32", b.length, out);
      out.push(...b);
    } else throw new Error(`type ${t}`);
  } else if (t.array) {
    if (v.length !== t.array[1]) throw new RangeError("array length");
    for (const x of v) enc(idl, t.array[0], x, out);
  } else if (t.vec) {
    enc(idl, "u32", v.length, out);
    for (const x of v) enc(idl, t.vec, x, out);
  } else if (t.option) {
    if (v === null || v === undefined) out.push(0);
    else {
      out.push(1);
      enc(idl, t.option, v, out);
    }
  } else if (t.defined) {
    const d = find(idl, t.defined.name ?? t.defined);
    if (d.kind === "struct") for (const f of d.fields) {
      if (v[f.name] === undefined) throw new Error(`missing field ${f.name}`);
      enc(idl, f.type, v[f.name], out);
    }
    else {
      const i = d.variants.findIndex((x) => camel(x.name) in v);
      if (i < 0) throw new Error("Invalid enum variant");
      out.push(i);
      const val = v[camel(d.variants[i].name)];
      (d.variants[i].fields ?? []).forEach((f, j) => enc(idl, f.type ?? f, f.name ? val[f.name] : val[j], out));
    }
  } else throw new Error("type " + JSON.stringify(t));
}
function dec(idl, t, b, at) {
  if (typeof t === "string") {
    if (t in INTS) {
      const n = INTS[t];
      if (at.o + n > b.length) throw new RangeError("out of range");
      let x = 0n;
      for (let i = n - 1; i >= 0; i--) x = (x << 8n) | BigInt(b[at.o + i]);
      at.o += n;
      if (t[0] === "i") x = BigInt.asIntN(8 * n, x);
      return n > 4 ? new BN(x) : Number(x);
    }
    if (t === "bool") return dec(idl, "u8", b, at) !== 0;
    if (t === "publicKey" || t === "pubkey") {
      at.o += 32;
      return new PublicKey(b.slice(at.o - 32, at.o));
    }
    if (t === "bytes" || t === "string") {
      const n = dec(idl, "u32", b, at);
      at.o += n;
      const x = b.slice(at.o - n, at.o);
      return t === "string" ? Buffer.from(x).toString() : Buffer.from(x);
    }
    throw new Error(`type ${t}`);
  }
  if (t.array) return Array.from({ length: t.array[1] }, () => dec(idl, t.array[0], b, at));
  if (t.vec) return Array.from({ length: dec(idl, "u32", b, at) }, () => dec(idl, t.vec, b, at));
  if (t.option) return dec(idl, "u8", b, at) === 0 ? null : dec(idl, t.option, b, at);
  if (t.defined) return decType(idl, find(idl, t.defined.name ?? t.defined), b, at);
  throw new Error("type " + JSON.stringify(t));
}
function decType(idl, d, b, at) {
  if (d.kind === "struct") {
    const r = {};
    for (const f of d.fields) r[f.name] = dec(idl, f.type, b, at);
    return r;
  }
  const i = dec(idl, "u8", b, at);
  const v = d.variants[i];
  if (!v) throw new Error("Invalid enum variant");
  const val = {};
  (v.fields ?? []).forEach((f, j) => (val[f.name ?? j] = dec(idl, f.type ?? f, b, at)));
  return { [camel(v.name)]: val };
}
function size(idl, t) {
  if (typeof t === "string") return t in INTS ? INTS[t] : t === "bool" ? 1 : 32;
  if (t.array) return t.array[1] * size(idl, t.array[0]);
  if (t.option) return 1 + size(idl, t.option);
  if (t.defined) return sizeType(idl, find(idl, t.defined.name ?? t.defined));
  return 1;
}
const sizeType = (idl, d) =>
  d.kind === "struct" ? d.fields.reduce((n, f) => n + size(idl, f.type), 0) : 1 + Math.max(0, ...d.variants.map((v) => (v.fields ?? []).reduce((n, f) => n + size(idl, f.type ?? f), 0)));

const disc = (s) => sha256(Buffer.from(s)).slice(0, 8);
const CONST = {
  associatedTokenProgram: new PublicKey("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"),
  rent: web3.SYSVAR_RENT_PUBKEY,
  systemProgram: web3.SystemProgram.programId,
  tokenProgram: new PublicKey("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"),
  clock: web3.SYSVAR_CLOCK_PUBKEY,
};
class Builder {
  constructor(p, ix, args) {
    this.p = p;
    this.ix = ix;
    this.args = args;
    this.given = {};
    this.rest = [];
    this.resolve = true;
  }
  accounts(a) { this.given = { ...this.given, ...a }; return this; }
  accountsPartial(a) { return this.accounts(a); }
  accountsStrict(a) { this.given = a; this.resolve = false; return this; }
  remainingAccounts(a) { this.rest.push(...a); return this; }
  signers() { return this; }
  preInstructions() { return this; }
  postInstructions() { return this; }
  metas(descs, given, out) {
    for (const d of descs) {
      let v = given?.[d.name];
      if (d.accounts) {
        // a group with every member known may be left out
        this.metas(d.accounts, v ?? (this.resolve ? {} : undefined), out);
        continue;
      }
      if (v === undefined && this.resolve) {
        if (d.isSigner) {
          const k = this.p.provider?.publicKey;
          if (!k) throw new Error("This function requires the Provider interface implementor to have a 'publicKey' field.");
          v = k;
        } else v = CONST[d.name];
      }
      if (v === undefined || v === null) throw new Error(`Invalid arguments: ${d.name} not provided.`);
      out.push({ pubkey: new PublicKey(v.publicKey ?? v), isSigner: !!d.isSigner, isWritable: !!d.isMut });
    }
    return out;
  }
  async instruction() {
    const keys = this.metas(this.ix.accounts, this.given, []).concat(this.rest);
    if (this.args.length !== this.ix.args.length) throw new Error(`provided too many or too few arguments to ${this.ix.name}`);
    const out = [...disc("global:" + snake(this.ix.name))];
    this.ix.args.forEach((a, i) => enc(this.p.idl, a.type, this.args[i], out));
    return new web3.TransactionInstruction({ keys, programId: this.p.programId, data: Buffer.from(out) });
  }
  async transaction() { return new web3.Transaction().add(await this.instruction()); }
}
class Program {
  constructor(idl, programId, provider) {
    this.idl = idl;
    this.programId = new PublicKey(programId);
    this.provider = provider;
    this.methods = {};
    for (const ix of idl.instructions) this.methods[camel(ix.name)] = (...args) => new Builder(this, ix, args);
    this.account = {};
    for (const a of idl.accounts ?? []) {
      const d = disc("account:" + pascal(a.name));
      const parse = (info) => {
        if (!info.data.slice(0, 8).every((x, i) => x === d[i])) throw new Error("Invalid account discriminator");
        return decType(idl, a.type, new Uint8Array(info.data), { o: 8 });
      };
      const fetchNullable = async (k) => {
        const info = await this.provider.connection.getAccountInfo(new PublicKey(k));
        return info === null ? null : parse(info);
      };
      this.account[camel(a.name)] = {
        size: 8 + sizeType(idl, a.type),
        fetchNullable,
        fetch: async (k) => {
          const r = await fetchNullable(k);
          if (r === null) throw new Error(`Account does not exist or has no data ${new PublicKey(k)}`);
          return r;
        },
      };
    }
  }
}
module.exports = open({ Program, BN, web3, parseIdlErrors: () => new Map(), translateError: (e) => e }, "@coral-xyz/anchor");
