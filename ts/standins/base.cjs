"use strict";
// What the stand-ins share: bytes, hashes, base58, the curve check, and a marker for what they lack.
const crypto = require("crypto");

class Missing extends Error {}
/** a module whose unknown exports fail only when used, and recognizably */
function open(exports, module) {
  const proto = new Proxy(Object.create(null), {
    get(_, k) {
      if (typeof k !== "string" || k === "then" || k === "__esModule" || k === "default" || k === "toJSON") return undefined;
      const f = function () {
        throw new Missing(`stand-in for ${module} lacks ${k}`);
      };
      return f;
    },
  });
  Object.setPrototypeOf(exports, proto);
  return exports;
}

const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
function b58enc(b) {
  let n = 0n;
  for (const x of b) n = (n << 8n) | BigInt(x);
  let s = "";
  while (n > 0n) {
    s = B58[Number(n % 58n)] + s;
    n /= 58n;
  }
  for (const x of b) {
    if (x !== 0) break;
    s = "1" + s;
  }
  return s;
}
function b58dec(s) {
  let n = 0n;
  for (const c of s) {
    const i = B58.indexOf(c);
    if (i < 0) throw new Error("Non-base58 character");
    n = n * 58n + BigInt(i);
  }
  const out = [];
  while (n > 0n) {
    out.unshift(Number(n & 255n));
    n >>= 8n;
  }
  for (const c of s) {
    if (c !== "1") break;
    out.unshift(0);
  }
  return Uint8Array.from(out);
}

const P25519 = (1n << 255n) - 19n;
function powmod(b, e) {
  let r = 1n;
  b %= P25519;
  while (e > 0n) {
    if (e & 1n) r = (r * b) % P25519;
    b = (b * b) % P25519;
    e >>= 1n;
  }
  return r;
}
const D25519 = 37095705934669439343138083508754565189542113879843219016388785533085940283555n;
function onCurve(bytes) {
  let y = 0n;
  for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 0x7f : bytes[i]);
  if (y >= P25519) y %= P25519;
  const y2 = (y * y) % P25519;
  const u = (y2 - 1n + P25519) % P25519;
  const v = (D25519 * y2 + 1n) % P25519;
  if (u === 0n) return true;
  // u/v is a square iff u*v is
  return powmod((u * v) % P25519, (P25519 - 1n) / 2n) === 1n;
}
const sha256 = (b) => new Uint8Array(crypto.createHash("sha256").update(b).digest());

const RC = [];
{
  let r = 1;
  for (let i = 0; i < 24; i++) {
    let c = 0n;
    for (let j = 0; j < 7; j++) {
      if (r & 1) c |= 1n << BigInt((1 << j) - 1);
      r = (r << 1) ^ (r & 0x80 ? 0x171 : 0);
    }
    RC.push(c);
  }
}
const M64 = (1n << 64n) - 1n;
const rot = (x, n) => (n === 0n ? x : ((x << n) | (x >> (64n - n))) & M64);
function keccakF(a) {
  for (let rnd = 0; rnd < 24; rnd++) {
    const c = [];
    for (let x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (let x = 0; x < 5; x++) {
      const d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1n);
      for (let y = 0; y < 25; y += 5) a[x + y] ^= d;
    }
    let x = 1, y = 0, cur = a[1];
    for (let t = 0; t < 24; t++) {
      const nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx;
      y = ny;
      const tmp = a[x + 5 * y];
      a[x + 5 * y] = rot(cur, BigInt((((t + 1) * (t + 2)) / 2) % 64));
      cur = tmp;
    }
    for (let y5 = 0; y5 < 25; y5 += 5) {
      const row = a.slice(y5, y5 + 5);
      for (let i = 0; i < 5; i++) a[y5 + i] = row[i] ^ (~row[(i + 1) % 5] & M64 & row[(i + 2) % 5]);
    }
    a[0] ^= RC[rnd];
  }
}
function keccak256(input) {
  const b = typeof input === "string" ? Buffer.from(input) : input;
  const rate = 136;
  const len = (Math.floor(b.length / rate) + 1) * rate;
  const p = new Uint8Array(len);
  p.set(b);
  p[b.length] ^= 1;
  p[len - 1] ^= 0x80;
  const a = new Array(25).fill(0n);
  const dv = new DataView(p.buffer);
  for (let o = 0; o < len; o += rate) {
    for (let i = 0; i < rate / 8; i++) a[i] ^= dv.getBigUint64(o + 8 * i, true);
    keccakF(a);
  }
  const out = new Uint8Array(32);
  const od = new DataView(out.buffer);
  for (let i = 0; i < 4; i++) od.setBigUint64(8 * i, a[i], true);
  return out;
}
const concat = (...xs) => {
  const out = new Uint8Array(xs.reduce((n, x) => n + x.length, 0));
  let o = 0;
  for (const x of xs) {
    out.set(x, o);
    o += x.length;
  }
  return out;
};
const eq = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
module.exports = { Missing, open, b58enc, b58dec, onCurve, sha256, keccak256, concat, eq };
