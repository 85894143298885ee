// Runs the repository's TypeScript client packages on requests from the harness: one JSON line in, one out.
// @ts-nocheck
import * as sdk from "@wormhole-foundation/sdk-definitions-ntt";
import * as base from "@wormhole-foundation/sdk-base";
import * as defs from "@wormhole-foundation/sdk-definitions";
import { Keypair, PublicKey, AddressLookupTableAccount } from "@solana/web3.js";
import { BN } from "@coral-xyz/anchor";
import { SolanaAddress } from "@wormhole-foundation/sdk-solana";
import { NTT, NttQuoter } from "REPO/solana/ts/lib/index.js";
import { SolanaNtt, SolanaNttWormholeTransceiver } from "REPO/solana/ts/sdk/ntt.js";
import { getNttProgram } from "REPO/solana/ts/lib/bindings.js";
import { NttRoute } from "REPO/sdk/route/src/types.js";
import { nttAutomaticRoute } from "REPO/sdk/route/src/automatic.js";
import { nttManualRoute } from "REPO/sdk/route/src/manual.js";
import { TransferState } from "@wormhole-foundation/sdk-connect";
import { diffObjects } from "REPO/cli/src/diff.js";
import { EvmNtt } from "REPO/evm/ts/src/ntt.js";
import { EvmAddress } from "@wormhole-foundation/sdk-evm";
import readline from "readline";
import { cli } from "./cli/run";
import { Missing } from "STANDINS/base.cjs";

const unhex = (s: string) => new Uint8Array(Buffer.from(s, "hex"));
const hex = (b: any) => Buffer.from(b).toString("hex");
const key = (s: string) => new PublicKey(unhex(s));
const ua = (s: string) => new defs.UniversalAddress(unhex(s));

let env: any;

function connection(q: any) {
  const get = (k: any) => {
    const a = q.accts[hex(k.toBytes())];
    return a ? { owner: key(a[0]), lamports: a[1], data: Buffer.from(a[2], "hex"), executable: false, rentEpoch: 0 } : null;
  };
  return {
    rpcEndpoint: "http://localhost",
    getAccountInfo: async (k: any) => get(k),
    getMultipleAccountsInfo: async (ks: any[]) => ks.map(get),
    getSlot: async () => q.slot,
    getLatestBlockhash: async () => ({ blockhash: "11111111111111111111111111111111" }),
    getMinimumBalanceForRentExemption: async (n: number) => (128 + n) * 6960,
    getAddressLookupTable: async (k: any) => {
      const a = get(k);
      if (!a) return { value: null };
      const addresses: any[] = [];
      for (let o = 56; o + 32 <= a.data.length; o += 32) addresses.push(new PublicKey(a.data.subarray(o, o + 32)));
      return { value: new AddressLookupTableAccount({ key: k, state: { addresses } }) };
    },
  };
}

const ix1 = (i: any) => ({
  p: hex(i.programId.toBytes()),
  d: hex(i.data),
  k: i.keys.map((m: any) => [hex(m.pubkey.toBytes()), (m.isSigner ? 1 : 0) + (m.isWritable ? 2 : 0)]),
});
async function collect(gen: any, max = 9) {
  const out: any[] = [];
  for await (const t of gen) {
    const tx = t.transaction.transaction;
    out.push((tx.instructions ?? tx.message.instructions).map(ix1));
    if (out.length === max) break;
  }
  return out;
}
const one = async (p: any) => {
  const i = await p;
  return i ? [[ix1(i)]] : null;
};

const wormholeTransfer = () => defs.registry["Ntt:WormholeTransfer"];
function attestation(a: any) {
  return {
    payloadName: "WormholeTransfer",
    protocolName: "Ntt",
    payloadLiteral: "Ntt:WormholeTransfer",
    emitterChain: base.toChain(a.chain),
    emitterAddress: ua(a.emitter),
    sequence: 0n,
    hash: unhex(a.hash),
    payload: base.deserializeLayout(wormholeTransfer(), unhex(a.payload)),
  };
}

const LAYOUTS: any = {
  WormholeTransfer: () => wormholeTransfer(),
  NttManagerMessage: () => sdk.nttManagerMessageLayout(sdk.nativeTokenTransferLayout),
  NttManagerMessageRaw: () => sdk.nttManagerMessageLayout(),
  NativeTokenTransfer: () => sdk.nativeTokenTransferLayout,
  TransceiverInfo: () => sdk.transceiverInfo,
  TransceiverRegistration: () => sdk.transceiverRegistration,
  TransceiverMessageRaw: (q: any) => sdk.transceiverMessageLayout(Array.from(unhex(q.prefix)) as any),
};
const transfer = (x: any) => ({
  trimmedAmount: { amount: BigInt(x.amount), decimals: x.decimals },
  sourceToken: ua(x.token),
  recipientAddress: ua(x.to),
  recipientChain: base.toChain(x.toChain),
  additionalPayload: unhex(x.extra ?? ""),
});
const managerMsg = (x: any) => ({ id: unhex(x.id), sender: ua(x.sender), payload: transfer(x) });
function build(kind: string, x: any) {
  switch (kind) {
    case "WormholeTransfer":
      return { sourceNttManager: ua(x.sourceMgr), recipientNttManager: ua(x.recipientMgr), nttManagerPayload: managerMsg(x), transceiverPayload: new Uint8Array(0) };
    case "NttManagerMessage": return managerMsg(x);
    case "NttManagerMessageRaw": return { id: unhex(x.id), sender: ua(x.sender), payload: unhex(x.raw) };
    case "NativeTokenTransfer": return transfer(x);
    case "TransceiverInfo": return { managerAddress: ua(x.sourceMgr), mode: x.mode, token: ua(x.token), decimals: x.decimals };
    case "TransceiverRegistration": return { chain: base.toChain(x.toChain), transceiver: ua(x.to) };
    case "TransceiverMessageRaw":
      return { sourceNttManager: ua(x.sourceMgr), recipientNttManager: ua(x.recipientMgr), nttManagerPayload: unhex(x.raw), transceiverPayload: unhex(x.extra) };
  }
  throw new Error(kind);
}
const unTransfer = (t: any) => ({
  amount: t.trimmedAmount.amount.toString(), decimals: t.trimmedAmount.decimals, token: hex(t.sourceToken.toUint8Array()), to: hex(t.recipientAddress.toUint8Array()),
  toChain: base.toChainId(t.recipientChain), extra: hex(t.additionalPayload),
});
const unManager = (m: any) => ({ id: hex(m.id), sender: hex(m.sender.toUint8Array()), ...unTransfer(m.payload) });
function flat(kind: string, v: any): any {
  switch (kind) {
    case "WormholeTransfer": return { sourceMgr: hex(v.sourceNttManager.toUint8Array()), recipientMgr: hex(v.recipientNttManager.toUint8Array()), ...unManager(v.nttManagerPayload) };
    case "NttManagerMessage": return unManager(v);
    case "NttManagerMessageRaw": return { id: hex(v.id), sender: hex(v.sender.toUint8Array()), raw: hex(v.payload) };
    case "NativeTokenTransfer": return unTransfer(v);
    case "TransceiverInfo": return { sourceMgr: hex(v.managerAddress.toUint8Array()), mode: v.mode, token: hex(v.token.toUint8Array()), decimals: v.decimals };
    case "TransceiverRegistration": return { toChain: base.toChainId(v.chain), to: hex(v.transceiver.toUint8Array()) };
    case "TransceiverMessageRaw":
      return { sourceMgr: hex(v.sourceNttManager.toUint8Array()), recipientMgr: hex(v.recipientNttManager.toUint8Array()), raw: hex(v.nttManagerPayload), extra: hex(v.transceiverPayload) };
  }
}

function client(q: any) {
  const conn: any = connection(q);
  const manager = key(env.ntt).toBase58();
  const sntt: any = new SolanaNtt("Devnet" as any, (q.self ?? "Solana") as any, conn, {
    coreBridge: key(env.core).toBase58(),
    ntt: {
      token: q.token ? key(q.token).toBase58() : manager,
      manager,
      transceiver: { wormhole: q.standalone ? key(env.standalone).toBase58() : NTT.transceiverPdas(manager).emitterAccount().toBase58() },
      ...(q.quoter && { quoter: key(env.quoter).toBase58() }),
    },
  } as any, "3.0.0");
  return { conn, sntt };
}

// ---- routes: the chains and their NTT protocols are recorders ----

const STATE: any = Object.fromEntries(Object.entries(TransferState).map(([k, v]) => [v, k]));
const plain = (v: any): any =>
  v === undefined ? null
  : typeof v === "bigint" ? v.toString()
  : v instanceof Uint8Array ? hex(v)
  : v && typeof v === "object" && typeof v.toUint8Array === "function" ? hex(v.toUint8Array())
  : v && typeof v === "object" && typeof v.unwrap === "function" ? v.toString()
  : v instanceof Date ? v.getTime()
  : Array.isArray(v) ? v.map(plain)
  : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).filter(([, x]) => x !== undefined).map(([k, x]) => [k, plain(x)]))
  : v;
const DECIMALS: any = { Solana: 9, Ethereum: 18, Bsc: 18, Arbitrum: 18, Base: 18 };
function routeEnv(a: any) {
  const sent: any[] = [];
  const asked: any[] = [];
  const ctx = (chain: string) => ({
    chain,
    config: { nativeTokenDecimals: a.native?.[chain] ?? DECIMALS[chain] },
    supportsProtocol: () => true,
    getProtocol: async (name: string, contracts: any) => {
      const send = (f: string) => async function* (...args: any[]) {
        sent.push([f, chain, plain(contracts.ntt), plain(args)]);
        yield `${f} on ${chain}`;
      };
      const read = (f: string, v: any) => async (...args: any[]) => {
        asked.push([f, chain, plain(contracts.ntt)]);
        return typeof v === "function" ? v(...args) : v;
      };
      if (name !== "Ntt") throw new Error(`no protocol ${name}`);
      const known: any = {
        transfer: send("transfer"), redeem: send("redeem"), completeInboundQueuedTransfer: send("completeInboundQueuedTransfer"),
        isRelayingAvailable: read("isRelayingAvailable", (to: string) => a.relaying && to === a.to),
        quoteDeliveryPrice: read("quoteDeliveryPrice", (to: string, o: any) => BigInt(a.price) + (o.gasDropoff ?? 0n)),
        getRateLimitDuration: read("getRateLimitDuration", () => BigInt(a.duration)),
        getCurrentInboundCapacity: read("getCurrentInboundCapacity", (from: string) => (from === a.from ? BigInt(a.capacity) : 0n)),
        getIsApproved: read("getIsApproved", () => a.approved), getIsExecuted: read("getIsExecuted", () => a.executed),
        getIsTransferInboundQueued: read("getIsTransferInboundQueued", () => a.queuedUntil !== null),
        getInboundQueuedTransfer: read("getInboundQueuedTransfer", (from: string, m: any) =>
          a.queuedUntil === null || from !== a.from || hex(m.id) !== a.msg.id ? null : { recipient: m.sender, amount: 1n, rateLimitExpiryTimestamp: a.queuedUntil }),
      };
      return new Proxy(known, { get: (t, k) => { if (k in t || typeof k !== "string" || k === "then") return t[k]; throw new Missing(`no ${k} in the protocol`); } });
    },
  });
  const inner = a.msg && { sourceNttManager: ua(a.msg.sourceMgr), recipientNttManager: ua(a.msg.recipientMgr), nttManagerPayload: managerMsg(a.msg), transceiverPayload: new Uint8Array(0) };
  const vaa = (type: string) => ({
    payloadName: type.split(":")[1], protocolName: "Ntt", payloadLiteral: type, emitterChain: a.from, emitterAddress: ua(a.msg.emitter), sequence: 7n, hash: new Uint8Array(32),
    payload: type === "Ntt:WormholeTransfer" ? inner : { payload: inner },
  });
  const wh = {
    getChain: ctx,
    getVaa: async (txid: string, type: string) => (txid === a.txid && type === a.vaaType ? vaa(type) : null),
  };
  const Impl: any = a.kind === "automatic" ? nttAutomaticRoute(a.config) : nttManualRoute(a.config);
  const request = {
    source: { id: { chain: a.from, address: a.srcToken }, decimals: a.srcDecimals },
    destination: { id: { chain: a.to, address: a.dstToken }, decimals: a.dstDecimals },
    fromChain: ctx(a.from), toChain: ctx(a.to),
  };
  const signer = (chain: string) => ({ chain: () => chain, address: () => a.signer });
  return { route: new Impl(wh), request, signer, sent, asked, vaa };
}
async function routeSend(a: any) {
  const { route, request, signer, sent } = routeEnv(a);
  const v = await route.validate(request, { amount: a.amount, ...(a.options && { options: a.options }) });
  if (!v.valid) return { v: { refused: "validation" } };
  const q = await route.quote(request, v.params);
  if (!q.success) return { v: { refused: "quote" } };
  const r = await route.initiate(request, signer(a.from), q, { chain: a.to, address: ua(a.recipient) });
  return { v: {
    source: plain([q.sourceToken.token, q.sourceToken.amount]), destination: plain([q.destinationToken.token, q.destinationToken.amount]),
    fee: plain(q.relayFee ?? null), gas: plain(q.destinationNativeGas ?? null), warnings: plain(q.warnings ?? []),
    sent, receipt: { from: r.from, to: r.to, state: STATE[r.state], txs: plain(r.originTxs) },
  } };
}
async function routeTrack(a: any) {
  const { route, signer, sent, vaa } = routeEnv(a);
  const contracts = (c: any) => c;
  let receipt: any = {
    from: a.from, to: a.to, state: (TransferState as any)[a.state], originTxs: [{ chain: a.from, txid: a.txid }],
    params: { amount: "1", options: {}, normalizedParams: { amount: { amount: "1", decimals: 0 }, options: { queue: false }, sourceContracts: contracts(a.src), destinationContracts: contracts(a.dst) } },
  };
  if (a.resume) receipt = await route.resume({ chain: a.from, txid: a.txid });
  else if (!a.state.startsWith("Source")) receipt.attestation = { id: { chain: a.from, emitter: ua(a.msg.emitter), sequence: 7n }, attestation: vaa(a.vaaType) };
  const at = [receipt.from, receipt.to, STATE[receipt.state], a.resume ? plain([receipt.params.normalizedParams.sourceContracts, receipt.params.normalizedParams.destinationContracts, receipt.params.normalizedParams.amount]) : null];
  const states: any[] = [];
  let last: any = receipt;
  for await (const r of route.track(receipt, 1000)) {
    states.push([STATE[r.state], r.state === TransferState.DestinationQueued && r.queueReleaseTime ? r.queueReleaseTime.getTime() : null]);
    last = r;
    if (states.length > 12) break;
  }
  const act = async (f: string) => {
    try {
      const r = await route[f](signer(a.to), last);
      return [STATE[r.state], sent.splice(0)];
    } catch (e) {
      if (e instanceof Missing) throw e;
      return ["refused", sent.splice(0)];
    }
  };
  const complete = a.kind === "manual" ? await act("complete") : null;
  const finalize = await act("finalize");
  return { v: { at, states, complete, finalize } };
}

// ---- the EVM client: contracts are a table of calls and what they return ----

function evmProvider(a: any) {
  const known = new Set(a.selectors);
  return {
    networkAndChain: [a.network, a.chain],
    call: async (tx: any) => {
      const data = tx.data.toLowerCase();
      const hit = a.calls[tx.to.toLowerCase() + data];
      if (hit !== undefined) return hit;
      if (!known.has(data.slice(0, 10))) throw new Missing(`read of ${data.slice(0, 10)}`);
      return "0x" + "00".repeat(512); // nothing is stored there
    },
  };
}
async function evmClient(a: any) {
  const p: any = evmProvider(a);
  const contracts = { coreBridge: a.core, ntt: a.ntt };
  if (a.rpc) return await EvmNtt.fromRpc(p, { [a.chain]: { network: a.rpc, contracts } } as any);
  return a.version === null ? new EvmNtt(a.network, a.chain, p, contracts as any) : new EvmNtt(a.network, a.chain, p, contracts as any, a.version);
}
const ea = (s: string) => new EvmAddress(s) as any;
async function evm(a: any) {
  const n: any = await evmClient(a);
  const x: any = await n.getTransceiver(0);
  const chainAddr = (c: any) => ({ chain: c.chain, address: c.chain === "Solana" ? ua(c.address) : new EvmAddress(unhex(c.address)) });
  const att = (m: any) => {
    const inner = { sourceNttManager: ua(m.sourceMgr), recipientNttManager: ua(m.recipientMgr), nttManagerPayload: managerMsg(m), transceiverPayload: new Uint8Array(0) };
    return { payloadName: m.type, protocolName: "Ntt", payloadLiteral: `Ntt:${m.type}`, emitterChain: m.from, payload: m.type === "WormholeTransfer" ? inner : { payload: inner }, bytes: unhex(m.bytes) };
  };
  const low = (v: any): any => (typeof v === "string" ? v.toLowerCase() : Array.isArray(v) ? v.map(low) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, y]) => [k, low(y)])) : v);
  const txs = async (g: any) => {
    const out: any[] = [];
    for await (const t of g) {
      const r = t.transaction;
      out.push({ to: r.to, data: r.data, value: String(r.value ?? 0n), from: r.from ?? null, chainId: String(r.chainId), network: t.network, chain: t.chain });
    }
    return { txs: out.map(low) };
  };
  const val = async (v: any) => ({ v: low(plain(await v)) });
  const run = async (o: any): Promise<any> => {
    switch (o.op) {
      case "mode": return val(n.getMode());
      case "paused": return val(n.isPaused());
      case "owner": return val(n.getOwner());
      case "pauser": return val(n.getPauser());
      case "threshold": return val(n.getThreshold());
      case "relaying": return val(n.isRelayingAvailable(o.chain));
      case "executed": return val(n.getIsExecuted(att(o.msg)));
      case "isQueued": return val(n.getIsTransferInboundQueued(att(o.msg)));
      case "approved": return val(n.getIsApproved(att(o.msg)));
      case "decimals": return val(n.getTokenDecimals());
      case "peer": return val(n.getPeer(o.chain));
      case "custody": return val(n.getCustodyAddress());
      case "quote": return val(n.quoteDeliveryPrice(o.chain, { queue: false, automatic: o.automatic }));
      case "outCapacity": return val(n.getCurrentOutboundCapacity());
      case "inCapacity": return val(n.getCurrentInboundCapacity(o.chain));
      case "outLimit": return val(n.getOutboundLimit());
      case "inLimit": return val(n.getInboundLimit(o.chain));
      case "duration": return val(n.getRateLimitDuration());
      case "queued": return val(n.getInboundQueuedTransfer(o.msg.from, managerMsg(o.msg)));
      case "verify": return val(n.verifyAddresses());
      case "xPauser": return val(x.getPauser());
      case "xPeer": return val(x.getPeer(o.chain));
      case "xEvm": return val(x.isEvmChain(o.chain));
      case "xRelaying": return val(x.isWormholeRelayingEnabled(o.chain));
      case "xSpecial": return val(x.isSpecialRelayingEnabled(o.chain));
      case "xAddress": return val(x.getAddress());
      case "pause": return txs(n.pause());
      case "unpause": return txs(n.unpause());
      case "setOwner": return txs(n.setOwner(ea(o.who)));
      case "setPauser": return txs(n.setPauser(ea(o.who)));
      case "setPeer": return txs(n.setPeer(chainAddr(o.peer), o.decimals, BigInt(o.limit)));
      case "setXPeer": return txs(o.via === 0 ? n.setTransceiverPeer(0, chainAddr(o.peer)) : o.via === 1 ? n.setWormholeTransceiverPeer(chainAddr(o.peer)) : x.setPeer(chainAddr(o.peer)));
      case "setNoPeer": return txs(n.setTransceiverPeer(o.index, chainAddr(o.peer)));
      case "xSetPauser": return txs(x.setPauser(ea(o.who)));
      case "xSetEvm": return txs(x.setIsEvmChain(o.chain, o.on));
      case "xSetRelaying": return txs(x.setIsWormholeRelayingEnabled(o.chain, o.on));
      case "xSetSpecial": return txs(x.setIsSpecialRelayingEnabled(o.chain, o.on));
      case "transfer": return txs(n.transfer(ea(o.sender), BigInt(o.amount), chainAddr(o.to), { queue: o.queue, automatic: o.automatic }));
      case "redeem": return txs(n.redeem(o.msgs.map(att)));
      case "setOutLimit": return txs(n.setOutboundLimit(BigInt(o.limit)));
      case "setInLimit": return txs(n.setInboundLimit(o.chain, BigInt(o.limit)));
      case "complete": return txs(n.completeInboundQueuedTransfer(o.msg.from, managerMsg(o.msg)));
    }
    throw new Missing(`no EVM operation ${o.op}`);
  };
  const out: any[] = [];
  for (const o of a.ops) {
    try {
      out.push(await run(o));
    } catch (e: any) {
      out.push({ err: String(e?.message ?? e), missing: e instanceof Missing || /is not a (function|constructor)/.test(String(e?.message)) });
      if (process.env.NTT_TS_TRACE) console.error(e);
    }
  }
  return { v: out };
}

async function handle(q: any): Promise<any> {
  Keypair.reset(q.salt ?? 0);
  if (q.f === "hello") {
    env = q;
    return { v: 1 };
  }
  const a = q.a;
  switch (q.f) {
    case "enc": return { v: hex(base.serializeLayout(LAYOUTS[a.kind](a), build(a.kind, a))) };
    case "dec": return { v: flat(a.kind, base.deserializeLayout(LAYOUTS[a.kind](a), unhex(a.bytes))) };
    case "digest": return { v: hex(sdk.Ntt.messageDigest(base.toChain(a.chain), managerMsg(a))) };
    case "instructions": return { v: hex(sdk.Ntt.encodeTransceiverInstructions(a.list.map(([index, p]: any) => ({ index, payload: unhex(p) })))) };
    case "trim": {
      const t = NttRoute.trimAmount({ amount: a.amount, decimals: a.decimals } as any, a.dst);
      return { v: [t.amount.toString(), t.decimals] };
    }
    case "threshold": return { v: NttRoute.isCapacityThresholdExceeded(BigInt(a.amount), BigInt(a.capacity)) };
    case "abi": return { v: sdk.Ntt.abiVersionMatches(a.target, a.abi) };
    case "version": {
      const b = Buffer.from(a.version, "utf8");
      const n = Buffer.alloc(4);
      n.writeUInt32LE(b.length);
      const c: any = { ...connection({ accts: {}, slot: 0 }), simulateTransaction: async () => ({ value: { err: null, logs: [], returnData: { data: [Buffer.concat([n, b]).toString("base64"), "base64"] } } }) };
      return { v: await NTT.getVersion(c, key(env.ntt)) };
    }
    case "routeSend": return await routeSend(a);
    case "evm": return await evm(a);
    case "cli": return { v: await cli(a) };
    case "routeTrack": return await routeTrack(a);
    case "diff": return { v: diffObjects(a.a, a.b) };
    case "dests": {
      const t = (x: any) => ({ chain: x.chain, address: x.address });
      const ctx = (c: string) => ({ chain: c });
      return { v: NttRoute.resolveDestinationTokens(a.config, { chain: a.from, address: a.token } as any, ctx(a.from) as any, ctx(a.to) as any).map(t) };
    }
    case "sources": return { v: [NttRoute.resolveSourceTokens(a.config, { chain: a.chain } as any).map((x: any) => x.address), NttRoute.resolveSupportedChains(a.config, "Mainnet" as any)] };
    case "contracts": return { v: NttRoute.resolveNttContracts(a.config, { chain: a.chain, address: a.token } as any) };
    case "destContracts": return { v: NttRoute.resolveDestinationNttContracts(a.config, { chain: a.chain, address: a.manager } as any, a.to) };
  }
  const { conn, sntt } = client(q);
  const program = sntt.program;
  const chain = a?.chain !== undefined ? (base.toChain(a.chain) as any) : undefined;
  const wh = async () => await sntt.getWormholeTransceiver();
  const cfg = async () => await sntt.getConfig();
  const quoter = () => new NttQuoter(conn, key(env.quoter), key(a.nttId ?? env.ntt));
  switch (q.f) {
    // ---- instructions ----
    case "initialize": return { tx: await one(NTT.createInitializeInstruction(program, { payer: key(a.payer), owner: key(a.deployer), chain, mint: key(a.mint), outboundLimit: BigInt(a.limit), tokenProgram: key(a.tokenProgram), mode: a.mode })) };
    case "initialize_lut": return { tx: await one(NTT.initializeOrUpdateLUT(program, await cfg(), (await wh()).programId, { payer: key(a.payer), wormholeId: key(env.core) })) };
    case "transfer_burn":
    case "transfer_lock": {
      const args = {
        payer: key(a.payer), from: key(a.from), fromAuthority: key(a.sender), outboxItem: key(a.outbox),
        transferArgs: NTT.transferArgs(BigInt(a.amount), { chain, address: ua(a.to) } as any, a.queue),
      };
      return { tx: await one(q.f === "transfer_burn" ? NTT.createTransferBurnInstruction(program, await cfg(), args) : NTT.createTransferLockInstruction(program, await cfg(), args)) };
    }
    case "redeem": return { tx: await one(NTT.createRedeemInstruction(program, await cfg(), (await wh()).programId, { payer: key(a.payer), vaa: attestation(a.vaa) as any })) };
    case "release_inbound_mint":
    case "release_inbound_unlock": {
      const args = { payer: key(a.payer), chain, nttMessage: managerMsg(a.msg) as any, revertOnDelay: a.revert, ...(a.recipient && { recipient: key(a.recipient) }) };
      return { tx: await one(q.f === "release_inbound_mint" ? NTT.createReleaseInboundMintInstruction(program, await cfg(), args) : NTT.createReleaseInboundUnlockInstruction(program, await cfg(), args)) };
    }
    case "set_peer": return { tx: await one(NTT.createSetPeerInstruction(program, { payer: key(a.payer), owner: key(a.owner), chain, address: unhex(a.addr), limit: new BN(a.limit), tokenDecimals: a.decimals })) };
    case "register_transceiver": return { tx: await one(sntt.createRegisterTransceiverIx(0, key(a.payer), key(a.owner))) };
    case "set_outbound_limit": return { tx: await one(NTT.createSetOutboundLimitInstruction(program, { owner: key(a.owner), limit: new BN(a.limit) })) };
    case "set_inbound_limit": return { tx: await one(NTT.setInboundLimit(program, { owner: key(a.owner), chain, limit: new BN(a.limit) })) };
    case "set_paused": return { tx: await one(NTT.createSetPausedInstruction(program, { owner: key(a.owner), paused: a.paused })) };
    case "receive": return { tx: await one((await wh()).createReceiveIx(attestation(a.vaa), key(a.payer))) };
    case "release_outbound": return { tx: await one((await wh()).createReleaseWormholeOutboundIx(key(a.payer), key(a.outbox), a.revert)) };
    case "broadcast_id": return { tx: await one((await wh()).createBroadcastWormholeIdIx(key(a.payer), await cfg(), key(a.msg))) };
    case "broadcast_peer": return { tx: await one((await wh()).createBroadcastWormholePeerIx(chain, key(a.payer), key(a.msg))) };
    // ---- whole operations ----
    case "op_initialize": return { tx: await collect(sntt.initialize(new SolanaAddress(key(a.payer)), { mint: key(a.mint), mode: a.mode, outboundLimit: BigInt(a.limit) }), 1) };
    case "op_transfer": {
      const kp = new Keypair(key(a.outbox));
      return { tx: await collect(sntt.transfer(new SolanaAddress(key(a.sender)), BigInt(a.amount), { chain, address: ua(a.to) }, { queue: a.queue, automatic: a.automatic, ...(a.dropoff !== undefined && { gasDropoff: BigInt(a.dropoff) }) }, kp)) };
    }
    case "op_redeem": return { tx: await collect(sntt.redeem([attestation(a.vaa)], new SolanaAddress(key(a.payer)))) };
    case "op_complete": return { tx: await collect(sntt.completeInboundQueuedTransfer(chain, managerMsg(a.msg), new SolanaAddress(key(a.payer)))) };
    case "op_pause": return { tx: await collect(a.paused ? sntt.pause(new SolanaAddress(key(a.owner))) : sntt.unpause(new SolanaAddress(key(a.owner)))) };
    case "op_set_owner": return { tx: await collect(sntt.setOwner(new SolanaAddress(key(a.newOwner)), new SolanaAddress(key(a.owner)))) };
    case "op_set_peer": return { tx: await collect(sntt.setPeer({ chain, address: ua(a.addr) }, a.decimals, BigInt(a.limit), new SolanaAddress(key(a.owner)))) };
    case "op_set_x_peer": return { tx: await collect(sntt.setWormholeTransceiverPeer({ chain, address: ua(a.addr) }, new SolanaAddress(key(a.owner)))) };
    case "op_register": return { tx: await collect(sntt.registerWormholeTransceiver({ payer: new SolanaAddress(key(a.payer)), owner: new SolanaAddress(key(a.owner)) })) };
    case "op_out_limit": return { tx: await collect(sntt.setOutboundLimit(BigInt(a.limit), new SolanaAddress(key(a.owner)))) };
    case "op_in_limit": return { tx: await collect(sntt.setInboundLimit(chain, BigInt(a.limit), new SolanaAddress(key(a.owner)))) };
    // ---- reading the chain ----
    case "read": {
      const c = await cfg();
      const r: any = {
        mode: await sntt.getMode(), paused: await sntt.isPaused(), threshold: await sntt.getThreshold(), owner: hex((await sntt.getOwner()).toUint8Array()),
        custody: hex(new PublicKey(await sntt.getCustodyAddress()).toBytes()), decimals: await sntt.getTokenDecimals(), mint: hex(c.mint.toBytes()),
        outLimit: (await sntt.getOutboundLimit()).toString(), duration: (await sntt.getRateLimitDuration()).toString(),
        whAddress: hex((await wh()).getAddress().address.toUint8Array()),
        outCap: (await sntt.getCurrentOutboundCapacity()).toString(), peers: {}, msgs: [],
      };
      for (const n of a.chains) {
        const ch = base.toChain(n) as any;
        const p = await sntt.getPeer(ch);
        const x = await (await wh()).getPeer(ch);
        r.peers[n] = {
          peer: p ? [hex(p.address.address.toUint8Array()), p.tokenDecimals, p.inboundLimit.toString(), base.toChainId(p.address.chain)] : null,
          xpeer: x ? hex(x.address.toUint8Array()) : null,
          inLimit: p ? (await sntt.getInboundLimit(ch)).toString() : null,
          ...(p && { inCap: (await sntt.getCurrentInboundCapacity(ch)).toString() }),
        };
      }
      for (const m of a.msgs) {
        const att = { payloadName: "WormholeTransfer", emitterChain: base.toChain(m.chain), payload: { nttManagerPayload: managerMsg(m.msg) } } as any;
        const queued = await sntt.getInboundQueuedTransfer(att.emitterChain, att.payload.nttManagerPayload);
        r.msgs.push({
          executed: await sntt.getIsExecuted(att), approved: await sntt.getIsApproved(att), queued: await sntt.getIsTransferInboundQueued(att),
          info: queued ? [hex(queued.recipient.toUint8Array()), queued.amount.toString(), queued.rateLimitExpiryTimestamp] : null,
        });
      }
      return { v: r };
    }
    case "verify": {
      const s = client({ ...q, token: a.token });
      return { v: await s.sntt.verifyAddresses() };
    }
    // ---- quoter ----
    case "q_quote": return { v: (await client({ ...q, quoter: true }).sntt.quoteDeliveryPrice(chain, a.dropoff === undefined ? ({ queue: false, automatic: true } as any) : { gasDropoff: BigInt(a.dropoff) })).toString() };
    case "q_enabled": return { v: await client({ ...q, quoter: true }).sntt.isRelayingAvailable(chain) };
    case "q_cost": return { v: await quoter().calcRelayCostInSol(key(a.ntt), chain, a.dropoffEth) };
    case "q_requested": return { v: await quoter().wasRelayRequested(key(a.outbox)) };
    case "q_state": {
      const i = await quoter().getInstance();
      const r: any = { instance: { owner: hex(i.owner.toBytes()), assistant: hex(i.assistant.toBytes()), feeRecipient: hex(i.feeRecipient.toBytes()), solPriceUsd: i.solPriceUsd }, chains: {}, ntts: {} };
      for (const n of a.chains) r.chains[n] = await quoter().getRegisteredChain(base.toChain(n) as any);
      for (const n of a.ntts) r.ntts[n] = await quoter().getRegisteredNtt(key(n));
      return { v: r };
    }
    case "q_request": return { tx: await one(quoter().createRequestRelayInstruction(key(a.payer), key(a.outbox), chain, a.maxFeeSol, a.dropoffEth)) };
    case "q_initialize": return { tx: await one(quoter().createInitalizeInstruction(key(a.recipient))) };
    case "q_set_assistant": return { tx: await one(quoter().createSetAssistantInstruction(key(a.key))) };
    case "q_set_recipient": return { tx: await one(quoter().createSetFeeRecipientInstruction(key(a.key))) };
    case "q_register_chain": return { tx: await one(quoter().createRegisterChainInstruction(key(a.authority), chain)) };
    case "q_register_ntt": return { tx: await one(quoter().createRegisterNttInstruction(key(a.authority), key(a.ntt), a.gasCost, a.index)) };
    case "q_deregister_ntt": return { tx: await one(quoter().createDeregisterNttInstruction(key(a.authority), key(a.ntt))) };
    case "q_sol_price": return { tx: await one(quoter().createUpdateSolPriceInstruction(key(a.authority), a.price)) };
    case "q_chain_params": return { tx: await one(quoter().createUpdateChainParamsInstruction(key(a.authority), chain, a.maxDropoffEth, a.basePriceUsd)) };
    case "q_pause_chain": return { tx: await one(quoter().createPauseRelayForChainInstruction(key(a.authority), chain)) };
    case "q_chain_prices": return { tx: await one(quoter().createUpdateChainPricesInstruction(key(a.authority), chain, a.nativePriceUsd, a.gasPriceGwei)) };
    case "q_close": return { tx: await one(quoter().createCloseRelayInstruction(key(a.authority), key(a.outbox))) };
  }
  throw new Missing(`no request ${q.f}`);
}
void getNttProgram;
void SolanaNttWormholeTransceiver;

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
(async () => {
  for await (const line of rl) {
    let out: any;
    try {
      out = await handle(JSON.parse(line));
    } catch (e: any) {
      out = { err: String(e?.message ?? e), // calling what does not exist would not pass the repository's type checker: the stand-ins lack it
        ...((e instanceof Missing || /is not a (function|constructor)/.test(String(e?.message))) && { missing: true }) };
      if (process.env.NTT_TS_TRACE) console.error(e);
    }
    process.stdout.write(JSON.stringify(out) + "\n");
  }
})();
