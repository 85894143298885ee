"use strict";
// @wormhole-foundation/sdk-base, as far as the NTT packages use it
const { open, b58enc, b58dec, concat, eq } = require("./base.cjs");
const NAMES = { 1: "Solana", 2: "Ethereum", 4: "Bsc", 5: "Polygon", 6: "Avalanche", 10: "Fantom", 14: "Celo", 16: "Moonbeam", 23: "Arbitrum", 24: "Optimism", 30: "Base" };
const IDS = Object.fromEntries(Object.entries(NAMES).map(([k, v]) => [v, Number(k)]));
const toChainId = (c) => {
  if (typeof c === "number" || typeof c === "bigint") return Number(c);
  if (c in IDS) return IDS[c];
  const m = /^Chain(\d+)$/.exec(c);
  if (m) return Number(m[1]);
  throw new Error(`Cannot convert to chainId: ${c}`);
};
const toChain = (i) => (typeof i === "string" ? i : NAMES[Number(i)] ?? `Chain${Number(i)}`);
const bignumToBytes = (n, len) => {
  let x = BigInt(n);
  if (x < 0n) throw new Error("Cannot encode negative number");
  const out = [];
  while (x > 0n) {
    out.unshift(Number(x & 255n));
    x >>= 8n;
  }
  if (out.length === 0) out.push(0);
  if (len === undefined) return Uint8Array.from(out);
  if (out.length > len) throw new Error("Number does not fit");
  return concat(new Uint8Array(len - out.length), out);
};
const encoding = {
  bytes: {
    encode: (s) => new Uint8Array(Buffer.from(s)),
    decode: (b) => Buffer.from(b).toString(),
    concat,
    equals: eq,
    zpad: (b, n, start = true) => (start ? concat(new Uint8Array(n - b.length), b) : concat(b, new Uint8Array(n - b.length))),
  },
  bignum: { toBytes: bignumToBytes, encode: (n) => BigInt(n).toString(16), decode: (s) => BigInt(s.startsWith("0x") ? s : "0x" + s) },
  hex: { encode: (b, p = false) => (p ? "0x" : "") + Buffer.from(b).toString("hex"), decode: (s) => new Uint8Array(Buffer.from(s.replace(/^0x/, ""), "hex")) },
  b64: { encode: (b) => Buffer.from(b).toString("base64"), decode: (s) => new Uint8Array(Buffer.from(s, "base64")) },
  b58: { encode: b58enc, decode: b58dec },
  stripPrefix: (p, s) => (s.startsWith(p) ? s.slice(p.length) : s),
};

// ---- binary layouts ----
const isLayout = (x) => Array.isArray(x) || (x && typeof x === "object" && "binary" in x);
const fixedValue = (c) => typeof c === "number" || typeof c === "bigint" || c instanceof Uint8Array;
const isFixed = (c) => c && typeof c === "object" && "to" in c && typeof c.to !== "function";
function customizableBytes(base, spec) {
  if (spec === undefined) return { ...base, binary: "bytes" };
  if (isLayout(spec)) return { ...base, binary: "bytes", layout: spec };
  return { ...base, binary: "bytes", custom: spec };
}
function encUint(n, size, le) {
  if (typeof n !== "number" && typeof n !== "bigint") throw new Error(`not a number: ${n}`);
  let x = BigInt(n);
  if (x < 0n || x >= 1n << BigInt(8 * size)) throw new Error(`${n} does not fit in ${size} bytes`);
  const out = new Uint8Array(size);
  for (let i = 0; i < size; i++) {
    out[le ? i : size - 1 - i] = Number(x & 255n);
    x >>= 8n;
  }
  return out;
}
function decUint(b, o, size, le) {
  let x = 0n;
  for (let i = 0; i < size; i++) x = (x << 8n) | BigInt(b[o + (le ? size - 1 - i : i)]);
  return size > 6 ? x : Number(x);
}
const same = (a, b) => (a instanceof Uint8Array ? b instanceof Uint8Array && eq(a, b) : a == b);
function out1(item, data) {
  const c = item.custom;
  if (fixedValue(c)) {
    if (!item.omit && data !== undefined && !same(c, data)) throw new Error(`${item.name}: value is fixed`);
    return c;
  }
  if (isFixed(c)) return c.from;
  if (c) return c.from(data);
  return data;
}
function in1(item, raw) {
  const c = item.custom;
  if (fixedValue(c)) {
    if (!same(c, raw)) throw new Error(`(${item.name}) value is constrained to ${c} but got ${raw}`);
    return raw;
  }
  if (isFixed(c)) {
    if (!same(c.from, raw)) throw new Error("fixed value mismatch");
    return c.to;
  }
  return c ? c.to(raw) : raw;
}
function serItem(item, data) {
  switch (item.binary) {
    case "uint": return encUint(out1(item, data), item.size, item.endianness === "little");
    case "bytes": {
      let b;
      if (item.layout !== undefined) b = serializeLayout(item.layout, item.custom?.from ? item.custom.from(data) : data);
      else b = out1(item, data);
      if (!(b instanceof Uint8Array)) throw new Error(`${item.name}: not bytes`);
      if (item.size !== undefined && b.length !== item.size) throw new Error(`${item.name}: expected ${item.size} bytes, got ${b.length}`);
      if (item.lengthSize !== undefined) return concat(encUint(b.length, item.lengthSize, item.lengthEndianness === "little"), b);
      return b;
    }
    case "array": {
      const parts = data.map((d) => serializeLayout(item.layout, d));
      const body = concat(...parts);
      return item.lengthSize !== undefined ? concat(encUint(data.length, item.lengthSize, item.lengthEndianness === "little"), body) : body;
    }
    case "switch": {
      const tag = item.idTag ?? "id";
      const [id, sub] = item.layouts.find(([i]) => (Array.isArray(i) ? i[1] : i) === data[tag]);
      return concat(encUint(Array.isArray(id) ? id[0] : id, item.idSize, item.idEndianness === "little"), serializeLayout(sub, data));
    }
    default: throw new Error(`layout item ${item.binary}`);
  }
}
function serializeLayout(layout, data) {
  return Array.isArray(layout) ? concat(...layout.map((i) => serItem(i, i.omit ? undefined : data[i.name]))) : serItem(layout, data);
}
function take(b, at, n, end) {
  if (at.o + n > end) throw new Error(`chunk is shorter than expected: ${end - at.o} < ${n}`);
  at.o += n;
  return b.slice(at.o - n, at.o);
}
function desItem(item, b, at, end) {
  switch (item.binary) {
    case "uint": return in1(item, decUint(take(b, at, item.size, end), 0, item.size, item.endianness === "little"));
    case "bytes": {
      let n;
      if (item.lengthSize !== undefined) n = Number(decUint(take(b, at, item.lengthSize, end), 0, item.lengthSize, item.lengthEndianness === "little"));
      else if (item.size !== undefined) n = item.size;
      else if (item.custom instanceof Uint8Array) n = item.custom.length;
      if (item.layout !== undefined) {
        let v;
        if (n === undefined) v = desLayout(item.layout, b, at, end);
        else {
          const c = take(b, at, n, end);
          v = deserializeLayout(item.layout, c);
        }
        return item.custom?.to ? item.custom.to(v) : v;
      }
      return in1(item, take(b, at, n ?? end - at.o, end));
    }
    case "array": {
      const r = [];
      if (item.lengthSize !== undefined) {
        const n = Number(decUint(take(b, at, item.lengthSize, end), 0, item.lengthSize, item.lengthEndianness === "little"));
        for (let i = 0; i < n; i++) r.push(desLayout(item.layout, b, at, end));
      } else if (item.length !== undefined) for (let i = 0; i < item.length; i++) r.push(desLayout(item.layout, b, at, end));
      else while (at.o < end) r.push(desLayout(item.layout, b, at, end));
      return r;
    }
    case "switch": {
      const id = Number(decUint(take(b, at, item.idSize, end), 0, item.idSize, item.idEndianness === "little"));
      const hit = item.layouts.find(([i]) => (Array.isArray(i) ? i[0] : i) === id);
      if (!hit) throw new Error(`unknown id value: ${id}`);
      return { [item.idTag ?? "id"]: Array.isArray(hit[0]) ? hit[0][1] : hit[0], ...desLayout(hit[1], b, at, end) };
    }
    default: throw new Error(`layout item ${item.binary}`);
  }
}
function desLayout(layout, b, at, end) {
  if (!Array.isArray(layout)) return desItem(layout, b, at, end);
  const r = {};
  for (const i of layout) {
    const v = desItem(i, b, at, end);
    if (!i.omit) r[i.name] = v;
  }
  return r;
}
function deserializeLayout(layout, b, consumeAll = true) {
  const at = { o: 0 };
  const v = desLayout(layout, b, at, b.length);
  if (consumeAll === false) return [v, at.o];
  if (at.o !== b.length) throw new Error(`encoded data is longer than expected: ${b.length} > ${at.o}`);
  return v;
}

// ---- amounts ----
const amount = {
  units: (a) => BigInt(a.amount),
  decimals: (a) => a.decimals,
  fromBaseUnits: (n, decimals) => ({ amount: BigInt(n).toString(), decimals }),
  whole: (a) => Number(amount.display(a)),
  display: (a) => {
    const s = a.amount.padStart(a.decimals + 1, "0");
    return a.decimals === 0 ? s : s.slice(0, -a.decimals) + "." + s.slice(-a.decimals);
  },
  parse: (v, decimals) => {
    const [w, f = ""] = String(v).split(".");
    if (f.length > decimals) throw new Error("Too many decimals");
    return { amount: BigInt(w + f.padEnd(decimals, "0")).toString(), decimals };
  },
  scale: (a, d) => {
    const n = BigInt(a.amount);
    return { amount: (d >= a.decimals ? n * 10n ** BigInt(d - a.decimals) : n / 10n ** BigInt(a.decimals - d)).toString(), decimals: d };
  },
  truncate: (a, d) => {
    if (d >= a.decimals) return a;
    const p = 10n ** BigInt(a.decimals - d);
    return { amount: ((BigInt(a.amount) / p) * p).toString(), decimals: a.decimals };
  },
};
module.exports = open({
  nativeChainIds: { networkChainToNativeChainId: { get: (n, c) => (n === "Mainnet" ? { Ethereum: 1n, Bsc: 56n, Arbitrum: 42161n, Base: 8453n } : { Ethereum: 11155111n, Bsc: 97n, Arbitrum: 421614n, Base: 84532n })[c] } },
  encoding, toChain, toChainId, serializeLayout, deserializeLayout, customizableBytes, amount,
  isChain: (c) => typeof c === "string" && (c in IDS || /^Chain\d+$/.test(c)),
  chainToPlatform: (c) => (c === "Solana" ? "Solana" : "Evm"),
  rpc: { rpcAddress: () => "" },
}, "@wormhole-foundation/sdk-base");
