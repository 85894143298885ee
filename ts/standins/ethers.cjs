"use strict";
// ethers, as far as the NTT packages use it: contracts with an ABI, over a provider answering `call({to, data})`.
const { open, keccak256, Missing } = require("./base.cjs");
const toHex = (b) => "0x" + Buffer.from(b).toString("hex");
const fromHex = (s) => new Uint8Array(Buffer.from(s.replace(/^0x/, ""), "hex"));
function getAddress(s) {
  if (typeof s !== "string" || !/^(0x)?[0-9a-fA-F]{40}$/.test(s)) throw new Error(`invalid address ${s}`);
  const l = s.replace(/^0x/, "").toLowerCase();
  const h = Buffer.from(keccak256(Buffer.from(l))).toString("hex");
  const sum = [...l].map((c, i) => (parseInt(h[i], 16) >= 8 ? c.toUpperCase() : c)).join("");
  const given = s.replace(/^0x/, "");
  if (given !== l && given !== l.toUpperCase() && given !== sum) throw new Error("bad address checksum");
  return "0x" + sum;
}
const bytesOf = (v) => {
  if (v instanceof Uint8Array) return v;
  if (typeof v === "string" && /^0x([0-9a-fA-F]{2})*$/.test(v)) return fromHex(v);
  throw new Error(`invalid BytesLike value ${v}`);
};
const word = (n) => { const x = BigInt.asUintN(256, n).toString(16).padStart(64, "0"); return fromHex(x); };
const cat = (...xs) => new Uint8Array(Buffer.concat(xs.map((x) => Buffer.from(x))));
const canon = (p) => {
  const m = /^tuple(.*)$/.exec(p.type);
  return m ? `(${p.components.map(canon).join(",")})${m[1]}` : p.type;
};
const elem = (p) => { const m = /^(.*)\[(\d*)\]$/.exec(p.type); return m && [{ ...p, type: m[1] }, m[2] === "" ? -1 : Number(m[2])]; };
const dynamic = (p) => {
  const e = elem(p);
  if (e) return e[1] < 0 || dynamic(e[0]);
  return p.type === "bytes" || p.type === "string" || (p.type === "tuple" && p.components.some(dynamic));
};
const size = (p) => {
  if (dynamic(p)) return 32;
  const e = elem(p);
  if (e) return e[1] * size(e[0]);
  return p.type === "tuple" ? p.components.reduce((n, c) => n + size(c), 0) : 32;
};
function enc(p, v) {
  const e = elem(p);
  if (e) {
    const xs = Array.from(v);
    const body = encAll(xs.map(() => e[0]), xs);
    return e[1] < 0 ? cat(word(BigInt(xs.length)), body) : body;
  }
  if (p.type === "tuple") return encAll(p.components, Array.isArray(v) ? v : p.components.map((c) => v[c.name]));
  let m;
  if ((m = /^(u?)int(\d*)$/.exec(p.type))) {
    if (typeof v !== "number" && typeof v !== "bigint" && typeof v !== "string") throw new Error(`invalid BigNumberish value ${v}`);
    const n = BigInt(v), bits = BigInt(m[2] || 256);
    const [lo, hi] = m[1] ? [0n, 1n << bits] : [-(1n << (bits - 1n)), 1n << (bits - 1n)];
    if (n < lo || n >= hi) throw new Error(`value out-of-bounds: ${n} for ${p.type}`);
    return word(n);
  }
  if (p.type === "bool") return word(v ? 1n : 0n);
  if (p.type === "address") {
    if (v && typeof v === "object" && typeof v.getAddress === "function") throw new Missing("addressable objects");
    return word(BigInt(getAddress(v)));
  }
  if (p.type === "bytes" || p.type === "string") {
    const b = p.type === "string" ? new Uint8Array(Buffer.from(v)) : bytesOf(v);
    return cat(word(BigInt(b.length)), b, new Uint8Array((32 - (b.length % 32)) % 32));
  }
  if ((m = /^bytes(\d+)$/.exec(p.type))) {
    const b = bytesOf(v);
    if (b.length !== Number(m[1])) throw new Error(`incorrect data length for ${p.type}`);
    return cat(b, new Uint8Array(32 - b.length));
  }
  throw new Missing(`ABI type ${p.type}`);
}
function encAll(ps, vs) {
  if (ps.length !== vs.length) throw new Error("types/values length mismatch");
  let at = ps.reduce((n, p) => n + size(p), 0);
  const head = [], tail = [];
  ps.forEach((p, i) => {
    const b = enc(p, vs[i]);
    if (!dynamic(p)) return head.push(b);
    head.push(word(BigInt(at)));
    tail.push(b);
    at += b.length;
  });
  return cat(...head, ...tail);
}
function dec(p, d, o) {
  const num = (i) => BigInt(toHex(d.subarray(i, i + 32).length === 32 ? d.subarray(i, i + 32) : (() => { throw new Error("out of result"); })()));
  const e = elem(p);
  if (e) {
    const n = e[1] < 0 ? Number(num(o)) : e[1];
    return decAll(Array(n).fill({ ...e[0], name: "" }), d, e[1] < 0 ? o + 32 : o);
  }
  if (p.type === "tuple") return decAll(p.components, d, o);
  let m;
  if ((m = /^(u?)int(\d*)$/.exec(p.type))) return m[1] ? BigInt.asUintN(Number(m[2] || 256), num(o)) : BigInt.asIntN(Number(m[2] || 256), num(o));
  if (p.type === "bool") return num(o) !== 0n;
  if (p.type === "address") return getAddress(toHex(d.subarray(o + 12, o + 32)));
  if (p.type === "bytes" || p.type === "string") {
    const b = d.subarray(o + 32, o + 32 + Number(num(o)));
    return p.type === "bytes" ? toHex(b) : Buffer.from(b).toString();
  }
  if ((m = /^bytes(\d+)$/.exec(p.type))) return toHex(d.subarray(o, o + Number(m[1])));
  throw new Missing(`ABI type ${p.type}`);
}
function decAll(ps, d, base) {
  const out = [];
  let o = base;
  for (const p of ps) {
    const v = dynamic(p) ? dec(p, d, base + Number(BigInt(toHex(d.subarray(o, o + 32))))) : dec(p, d, o);
    out.push(v);
    if (p.name && !(p.name in out)) out[p.name] = v;
    o += size(p);
  }
  return out;
}
function fragment(f) {
  if (typeof f !== "string") return f;
  const m = /^\s*function\s+(\w+)\s*\(([^)]*)\)([^(]*?)(?:returns\s*\(([^)]*)\))?\s*;?\s*$/.exec(f);
  if (!m) throw new Missing(`ABI fragment ${f}`);
  const ps = (s) => (s ?? "").split(",").map((x) => x.trim()).filter(Boolean).map((x) => { const [type, ...r] = x.split(/\s+/); return { type, name: r.filter((w) => !["memory", "calldata", "indexed"].includes(w))[0] ?? "" }; });
  return { type: "function", name: m[1], inputs: ps(m[2]), outputs: ps(m[4]), stateMutability: /\b(view|pure)\b/.test(m[3]) ? "view" : "nonpayable" };
}
class Interface {
  constructor(abi) { this.fragments = abi.map(fragment); }
  find(key) {
    const fs = this.fragments.filter((f) => f.type === "function");
    const sig = (f) => `${f.name}(${f.inputs.map(canon).join(",")})`;
    const k = key.replace(/\s+/g, "");
    const hits = fs.filter((f) => (k.includes("(") ? sig(f) === k : f.name === k));
    if (hits.length > 1) throw new Error(`ambiguous function description ${key}`);
    return hits.length ? { f: hits[0], selector: keccak256(Buffer.from(sig(hits[0]))).slice(0, 4) } : null;
  }
  encodeFunctionData(key, args = []) {
    const r = this.find(key);
    if (!r) throw new Error(`no matching function ${key}`);
    return toHex(cat(r.selector, encAll(r.f.inputs, Array.from(args))));
  }
  decodeFunctionResult(key, data) { return decAll(this.find(key).f.outputs, fromHex(data), 0); }
  getFunction(key) { return this.find(key)?.f ?? null; }
}
class Contract {
  constructor(target, abi, runner) {
    this.target = target;
    this.interface = abi instanceof Interface ? abi : new Interface(abi);
    this.runner = runner;
    return new Proxy(this, {
      get(t, k, r) {
        if (typeof k !== "string" || k in t || k === "then" || k === "toJSON") return Reflect.get(t, k, r);
        const any = t.interface.fragments.some((f) => f.type === "function" && f.name === k);
        return any ? t.getFunction(k) : undefined;
      },
    });
  }
  async getAddress() { return getAddress(this.target); }
  getFunction(key) {
    const t = this;
    const one = () => { const r = t.interface.find(key); if (!r) throw new Error(`no such function ${key}`); return r; };
    if (!t.interface.fragments.some((f) => f.type === "function" && f.name === key.split("(")[0])) throw new Error(`no such function ${key}`);
    const fill = async (...args) => {
      const { f, selector } = one();
      const over = args.length === f.inputs.length + 1 ? args.pop() : {};
      args = await Promise.all(args);
      return { ...over, to: t.target, data: toHex(cat(selector, encAll(f.inputs, args))) };
    };
    const result = async (...args) => {
      const { f } = one();
      const out = decAll(f.outputs, fromHex(await t.runner.call(await fill(...args))), 0);
      return out;
    };
    const call = async (...args) => { const o = await result(...args); return o.length === 1 ? o[0] : o; };
    const m = async (...args) => {
      const { f } = one();
      if (f.stateMutability === "view" || f.stateMutability === "pure") return call(...args);
      throw new Missing("sending a transaction");
    };
    m.populateTransaction = fill;
    m.staticCall = call;
    m.staticCallResult = result;
    Object.defineProperty(m, "fragment", { get: () => one().f });
    return m;
  }
}
class ContractFactory {}
module.exports = open({ Contract, ContractFactory, Interface, getAddress, hexlify: (v) => toHex(bytesOf(v)), getBytes: bytesOf, zeroPadValue: (v, n) => { const b = bytesOf(v); return toHex(cat(new Uint8Array(n - b.length), b)); }, ZeroAddress: "0x" + "00".repeat(20), ZeroHash: "0x" + "00".repeat(32) }, "ethers");
