"use strict";
// the deployments the tool talks to: plain state, read and changed through the protocol's interface
/* global CLI */
const { open, Missing, b58dec } = require("../standins/base.cjs");
const { chainToPlatform } = require("../standins/sdk-base.cjs");
const { UniversalAddress, toUniversal } = require("../standins/sdk-definitions.cjs");
const { EvmAddress } = require("../standins/sdk-evm.cjs");
const { SolanaAddress } = require("../standins/sdk-solana.cjs");
const { PublicKey } = require("../standins/web3.cjs");
const ua = (h) => new UniversalAddress(h);
const hex = (a) => Buffer.from((a.toUniversalAddress ? a.toUniversalAddress() : a).toUint8Array?.() ?? a.toBytes()).toString("hex");
const native = (chain, h) => (chain === "Solana" ? new SolanaAddress(ua(h)) : new EvmAddress(ua(h)));
const text = (chain, h) => (h === null ? null : native(chain, h).toString());
/** a read that fails a few times before it succeeds */
const calls = {};
const flaky = (what) => {
  calls[what] = (calls[what] ?? 0) + 1;
  if (CLI.flaky && calls[what] % CLI.flaky !== 0) throw new Error("rpc: 429");
};
const plain = (x) => (typeof x === "bigint" ? x.toString() : x);

const connection = open({
  getAccountInfo: async (k) => {
    const m = CLI.world.mints?.[k.toBase58()];
    return m ? { owner: new PublicKey(m.program), data: Buffer.from(m.data, "hex") } : null;
  },
}, "connection");
function protocol(network, chain, name, contracts) {
  const p = CLI.world.pending;
  if (p && p.chain === chain && !CLI.world.chains[chain] && p.early && contracts.ntt.manager === text(chain, p.state.manager)) return open({ network, chain, connection, contracts, verifyAddresses: async () => { throw new Error("Account does not exist"); } }, "Ntt");
  const st = network === CLI.world.network && CLI.world.chains[chain];
  const given = contracts.ntt;
  if (name !== "Ntt" || !st || given.manager !== text(chain, st.manager)) throw new Error(`no manager ${given.manager} on ${network} ${chain}`);
  const op = async function* (f, args, payer, apply) {
    yield { chain, op: [chain, f, ...args.map(plain)], payer: payer === undefined ? undefined : hex(payer), apply };
  };
  const owner = (who) => { if (who !== st.owner) throw new Error("not the owner"); };
  const owned = (f, args, payer, apply) => op(f, args, payer, (who) => { owner(who); apply(); });
  const peer = (x) => ({ chain: x, address: ua(st.xpeers[x]) });
  const list = (k) => async (c) => st[k].includes(c);
  const add = (k) => (c, on) => owned(k, [c, on], undefined, () => { st[k] = st[k].filter((x) => x !== c); if (on) st[k].push(c); });
  const evmSide = chainToPlatform(chain) === "Evm" ? {
    isEvmChain: list("evm"), isWormholeRelayingEnabled: list("std"), isSpecialRelayingEnabled: list("special"),
    setIsEvmChain: add("evm"), setIsWormholeRelayingEnabled: add("std"), setIsSpecialRelayingEnabled: add("special"),
    transceiver: { consistencyLevel: async () => 202n, wormholeRelayer: async () => "0x1", specialRelayer: async () => "0x2", gasLimit: async () => 500000n },
  } : {};
  const transceiver = open({
    ...evmSide,
    getAddress: () => ({ chain, address: toUniversal(chain, given.transceiver.wormhole) }),
    getPeer: async (c) => { flaky(`xpeer ${chain} ${c}`); return st.xpeers[c] ? peer(c) : null; },
    getPauser: async () => (st.xpauser === null ? null : native(chain, st.xpauser)),
    setPauser: (a, payer) => owned("xpauser", [hex(a)], payer, () => { st.xpauser = hex(a); }),
    setPeer: (p, payer) => owned("xpeer", [p.chain, hex(p.address)], payer, () => { st.xpeers[p.chain] = hex(p.address); }),
  }, "transceiver");
  const solana = chainToPlatform(chain) === "Solana" ? {
    pdas: open({ registeredTransceiver: (k) => new PublicKey(k.toBytes().map((x) => x ^ 0x5a)), ...Object.fromEntries(["configAccount", "outboxRateLimitAccount", "tokenAuthority", "lutAccount", "lutAuthority"].map((n) => [n, () => new PublicKey(b58dec("1".repeat(32)))])) }, "pdas"),
    program: { programId: new PublicKey(given.manager) },
    connection: open({
      getAccountInfo: async (k) => {
        flaky(`account ${chain}`);
        return st.registered && hex(k) === Buffer.from(Buffer.from(st.manager, "hex").map((x) => x ^ 0x5a)).toString("hex") ? { data: Buffer.alloc(8) } : null;
      },
    }, "connection"),
    getConfig: async () => ({ mint: new PublicKey(st.token) }),
    registerWormholeTransceiver: ({ payer, owner: o }) => op("register", [hex(o)], payer, (who) => { owner(who); st.registered = true; }),
    initializeOrUpdateLUT: async function* ({ payer }) { if (!st.lut) yield* op("lut", [], payer, () => { st.lut = true; }); },
  } : { managerAddress: given.manager, manager: { token: async () => st.token, tokenDecimals: async () => BigInt(st.decimals) } };
  return open({
    ...solana,
    version: st.version, chain, network, contracts,
    getMode: async () => st.mode, isPaused: async () => st.paused, getThreshold: async () => st.threshold, getTokenDecimals: async () => st.decimals,
    getOwner: async () => native(chain, st.owner), getPauser: async () => (st.pauser === null ? null : native(chain, st.pauser)),
    getOutboundLimit: async () => BigInt(st.outbound),
    getInboundLimit: async (c) => BigInt(st.peers[c]?.[2] ?? 0),
    getPeer: async (c) => {
      flaky(`peer ${chain} ${c}`);
      const p = st.peers[c];
      return p ? { address: { chain: c, address: ua(p[0]) }, tokenDecimals: p[1], inboundLimit: BigInt(p[2]) } : null;
    },
    getTransceiver: async (i) => (i === 0 && given.transceiver?.wormhole ? transceiver : null),
    verifyAddresses: async () => {
      const d = {};
      if (given.token !== st.token) d.token = st.token;
      if (given.transceiver?.wormhole !== st.wormhole) d.transceiver = { wormhole: st.wormhole };
      return Object.keys(d).length ? d : null;
    },
    setPeer: (p, dec, limit, payer) => owned("peer", [p.chain, hex(p.address), dec, limit], payer, () => { st.peers[p.chain] = [hex(p.address), dec, limit.toString()]; }),
    setTransceiverPeer: (i, p, payer) => owned("xpeer", [p.chain, hex(p.address)], payer, () => { if (i !== 0) throw new Error("no such transceiver"); st.xpeers[p.chain] = hex(p.address); }),
    setOwner: (a, payer) => owned("owner", [hex(a)], payer, () => { st.owner = hex(a); }),
    setPauser: (a, payer) => owned("pauser", [hex(a)], payer, () => { st.pauser = hex(a); }),
    pause: (payer) => owned("pause", [], payer, () => { st.paused = true; }),
    unpause: (payer) => owned("unpause", [], payer, () => { st.paused = false; }),
    setOutboundLimit: (n, payer) => owned("outbound", [n], payer, () => { st.outbound = n.toString(); }),
    setInboundLimit: (c, n, payer) => owned("inbound", [c, n], payer, () => { if (!st.peers[c]) throw new Error("no peer"); st.peers[c][2] = n.toString(); }),
  }, "Ntt");
}
// the owner signs
const signer = (chain, type, source) => {
  const who = source !== undefined && chain === "Solana" ? Buffer.from(b58dec(source).slice(32)).toString("hex") : CLI.world.chains[chain]?.owner ?? "00".repeat(32);
  return { address: { chain, address: native(chain, who) }, signer: { who, chain }, source: { type, source: source ?? "0xkey" } };
};
function send(ctx, t, s) {
  if (!t?.op) throw new Missing("a transaction of another kind");
  CLI.sent++;
  if (CLI.fail && CLI.sent === CLI.fail) throw Object.assign(new Error("transaction failed"), { logs: [] });
  if (t.chain !== ctx.chain || s.chain !== ctx.chain) throw new Error("sent on another chain");
  t.apply(s.who);
  CLI.ops.push([...t.op, t.payer === undefined || t.payer === s.who ? "" : `paid by ${t.payer}`]);
  return "tx";
}
module.exports = { connection, protocol, signer, send };
