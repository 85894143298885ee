//! The TypeScript client for EVM chains: what it reads from the contracts and the calls it builds for them,
//! against the contracts' call encoding.
use crate::client::{hex, msg_json};
use crate::engine::{Fail, Obs, Src};
use crate::sdk::{bad, call, xfer};
use serde_json::{json, Map, Value};
use solana_sdk::keccak::hash;

const IDS: [u16; 7] = [1, 2, 4, 23, 30, 10002, 258];
const CHAINS: [&str; 7] = ["Solana", "Ethereum", "Bsc", "Arbitrum", "Base", "Chain10002", "Chain258"];
type Addr = [u8; 20];

fn w(n: u128) -> Vec<u8> {
    let mut v = vec![0; 16];
    v.extend_from_slice(&n.to_be_bytes());
    v
}
fn wa(a: &Addr) -> Vec<u8> {
    let mut v = vec![0; 12];
    v.extend_from_slice(a);
    v
}
fn bytes(b: &[u8]) -> Vec<u8> {
    let mut v = w(b.len() as u128);
    v.extend_from_slice(b);
    v.resize(32 + b.len().div_ceil(32) * 32, 0);
    v
}
fn data(sig: &str, args: &[Vec<u8>]) -> String {
    let mut v = hash(sig.as_bytes()).to_bytes()[..4].to_vec();
    for a in args {
        v.extend_from_slice(a);
    }
    format!("0x{}", hex(&v))
}
fn ox(a: &[u8]) -> String {
    format!("0x{}", hex(a))
}
pub fn checksummed(a: &Addr) -> String {
    let l = hex(a);
    let h = hex(&hash(l.as_bytes()).to_bytes());
    let c: String = l.chars().zip(h.chars()).map(|(c, h)| if h >= '8' { c.to_ascii_uppercase() } else { c }).collect();
    format!("0x{c}")
}
pub fn addr(s: &mut Src) -> Addr {
    let b = s.bytes32();
    let mut a = [0; 20];
    match s.below(8) {
        0 => a[s.idx(20)] = b[0],
        1 => a[..10].copy_from_slice(&b[..10]),
        _ => a.copy_from_slice(&b[..20]),
    }
    if a == [0; 20] {
        a[19] = 1;
    }
    a
}
pub fn padded(a: &Addr) -> [u8; 32] {
    wa(a).try_into().unwrap()
}
/// an address in the form used on chain `c`
fn foreign(s: &mut Src, c: usize) -> [u8; 32] {
    if c == 0 {
        let mut b = s.bytes32();
        b[0] |= 1;
        b
    } else {
        padded(&addr(s))
    }
}
fn scale(amount: u128, from: u8, to: u8) -> u128 {
    if from > to {
        amount / 10u128.pow((from - to) as u32)
    } else {
        amount * 10u128.pow((to - from) as u32)
    }
}
struct Peer {
    addr: [u8; 32],
    decimals: u8,
}
struct Chain {
    peer: Option<Peer>,
    xpeer: Option<[u8; 32]>,
    limit: (u64, u8),
    capacity: u128,
    evm: bool,
    relaying: bool,
    special: bool,
    price: [u128; 2],
}
const READS: &[&str] = &[
    "getMode()", "isPaused()", "owner()", "pauser()", "getThreshold()", "isMessageExecuted(bytes32)", "isMessageApproved(bytes32)", "getPeer(uint16)", "getOutboundLimitParams()",
    "getInboundLimitParams(uint16)", "getCurrentOutboundCapacity()", "getCurrentInboundCapacity(uint16)", "rateLimitDuration()", "getInboundQueuedTransfer(bytes32)",
    "quoteDeliveryPrice(uint16,bytes)", "token()", "getTransceivers()", "getWormholePeer(uint16)", "isWormholeEvmChain(uint16)", "isWormholeRelayingEnabled(uint16)",
    "isSpecialRelayingEnabled(uint16)", "allowance(address,address)", "decimals()", "NTT_MANAGER_VERSION()",
];

pub fn evm(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    s.begin();
    let network = *s.pick(&["Mainnet", "Testnet"]);
    let here = 1 + s.idx(4);
    let chain_id = [[1u64, 56, 42161, 8453], [11155111, 97, 421614, 84532]][(network == "Testnet") as usize][here - 1];
    let (manager, token, xcvr, core) = (addr(s), addr(s), addr(s), addr(s));
    let (remote_token, remote_xcvr) = (if s.chance(3, 4) { token } else { addr(s) }, if s.chance(3, 4) { xcvr } else { addr(s) });
    let v = if s.chance(3, 4) { *s.pick(&[(1u64, 1u64), (1, 0), (0, 1), (1, 4)]) } else { (s.below(4), s.below(4)) };
    let version = format!("{}.{}.{}", v.0, v.1, *s.pick(&["0", "3", "1-beta"]));
    let supported = v.0 == 1 || v.0 == 0 && v.1 >= 1;
    let how = s.weighted(&[4, 1, 3]);
    let rpc_net = if s.chance(1, 8) { if network == "Mainnet" { "Testnet" } else { "Mainnet" } } else { network };
    let decimals = *s.pick(&[18u8, 6, 8, 0, 9, 17]);
    let (mode, paused) = (s.below(2), s.bool());
    let (owner, pauser, xpauser) = (addr(s), addr(s), addr(s));
    let threshold = s.range(1, 255);
    let duration = *s.pick(&[86400u64, 0, 1, 600]);
    let limit = |s: &mut Src| (s.mag64(), s.below(9) as u8);
    let out = limit(s);
    let out_cap = s.mag64() as u128 * *s.pick(&[1u128, 1, 1 << 40]);
    let chains: Vec<Chain> = (0..7)
        .map(|c| Chain {
            peer: if s.chance(2, 3) { Some(Peer { addr: foreign(s, c), decimals: s.below(19) as u8 }) } else { None },
            xpeer: if s.chance(2, 3) { Some(foreign(s, c)) } else { None },
            limit: limit(s),
            capacity: s.mag64() as u128 * *s.pick(&[1u128, 1, 1 << 40]),
            evm: s.bool(),
            relaying: s.bool(),
            special: s.chance(1, 3),
            price: [s.mag64() as u128, s.mag64() as u128],
        })
        .collect();
    let sender = addr(s);
    let amount = s.mag64() as u128 * *s.pick(&[1u128, 1, 1_000_000_000_000]);
    let allowance = match s.below(5) {
        0 => 0,
        1 => amount,
        2 => amount.saturating_sub(1),
        3 => amount + 1,
        _ => s.mag64() as u128,
    };
    // messages for this chain: unknown, approved, waiting in the queue, paid
    let msgs: Vec<_> = (0..2)
        .map(|_| {
            let x = xfer(s);
            let from = s.idx(7);
            let stage = s.below(4);
            let q = (s.mag64(), s.below(19) as u8, s.range(1, 1 << 33), addr(s));
            let vaa: Vec<u8> = (0..s.below(70)).map(|_| s.below(256) as u8).collect();
            let ty = if s.chance(3, 4) { "WormholeTransfer" } else { "WormholeTransferStandardRelayer" };
            let mut j = msg_json(&x);
            j["from"] = json!(CHAINS[from]);
            j["type"] = json!(ty);
            j["bytes"] = json!(hex(&vaa));
            let d = x.digest(IDS[from]);
            (j, d, stage, q, vaa, ty)
        })
        .collect();
    s.end();
    // the contracts' answers
    let mut calls = Map::new();
    let mut put = |to: &Addr, sig: &str, args: &[Vec<u8>], ret: &[Vec<u8>]| {
        calls.insert(format!("{}{}", ox(to), data(sig, args)), json!(ox(&ret.concat())));
    };
    let packed = |l: (u64, u8)| w((l.0 as u128) << 8 | l.1 as u128);
    put(&manager, "getMode()", &[], &[w(mode as u128)]);
    put(&manager, "isPaused()", &[], &[w(paused as u128)]);
    put(&manager, "owner()", &[], &[wa(&owner)]);
    put(&manager, "pauser()", &[], &[wa(&pauser)]);
    put(&xcvr, "pauser()", &[], &[wa(&xpauser)]);
    put(&manager, "getThreshold()", &[], &[w(threshold as u128)]);
    put(&manager, "rateLimitDuration()", &[], &[w(duration as u128)]);
    put(&manager, "getOutboundLimitParams()", &[], &[packed(out), packed((1, 1)), w(7)]);
    put(&manager, "getCurrentOutboundCapacity()", &[], &[w(out_cap)]);
    put(&manager, "token()", &[], &[wa(&remote_token)]);
    put(&manager, "getTransceivers()", &[], &[w(32), w(1), wa(&remote_xcvr)]);
    put(&manager, "NTT_MANAGER_VERSION()", &[], &[w(32), bytes(version.as_bytes())]);
    put(&token, "decimals()", &[], &[w(decimals as u128)]);
    put(&token, "allowance(address,address)", &[wa(&sender), wa(&manager)], &[w(allowance)]);
    for (c, st) in chains.iter().enumerate() {
        let id = w(IDS[c] as u128);
        if let Some(p) = &st.peer {
            put(&manager, "getPeer(uint16)", &[id.clone()], &[p.addr.to_vec(), w(p.decimals as u128)]);
        }
        if let Some(p) = &st.xpeer {
            put(&xcvr, "getWormholePeer(uint16)", &[id.clone()], &[p.to_vec()]);
        }
        put(&manager, "getInboundLimitParams(uint16)", &[id.clone()], &[packed(st.limit), packed((2, 2)), w(9)]);
        put(&manager, "getCurrentInboundCapacity(uint16)", &[id.clone()], &[w(st.capacity)]);
        put(&xcvr, "isWormholeEvmChain(uint16)", &[id.clone()], &[w(st.evm as u128)]);
        put(&xcvr, "isWormholeRelayingEnabled(uint16)", &[id.clone()], &[w(st.relaying as u128)]);
        put(&xcvr, "isSpecialRelayingEnabled(uint16)", &[id.clone()], &[w(st.special as u128)]);
        for skip in 0..2u8 {
            put(&manager, "quoteDeliveryPrice(uint16,bytes)", &[id.clone(), w(64), bytes(&[1, 0, 1, skip])], &[w(64), w(st.price[skip as usize]), w(1), w(1)]);
        }
    }
    for (_, d, stage, q, ..) in &msgs {
        put(&manager, "isMessageApproved(bytes32)", &[d.to_vec()], &[w((*stage > 0) as u128)]);
        put(&manager, "isMessageExecuted(bytes32)", &[d.to_vec()], &[w((*stage > 1) as u128)]);
        if *stage == 2 {
            put(&manager, "getInboundQueuedTransfer(bytes32)", &[d.to_vec()], &[packed((q.0, q.1)), w(q.2 as u128), wa(&q.3)]);
        }
    }
    // what is asked of the client, and what must come of it
    let mut ops: Vec<Value> = vec![];
    let mut want: Vec<Result<Value, ()>> = vec![];
    let mut kinds: Vec<&str> = vec![];
    let tx = |to: &Addr, sig: &str, args: &[Vec<u8>], value: u128, from: Option<&Addr>| {
        json!({"to": ox(to), "data": data(sig, args), "value": value.to_string(), "from": from.map(|a| ox(a)), "chainId": chain_id.to_string(), "network": network.to_lowercase(), "chain": CHAINS[here].to_lowercase()})
    };
    let n_ops = 3 + s.below(6);
    for _ in 0..n_ops {
        s.begin();
        let c = s.idx(7);
        let id = w(IDS[c] as u128);
        let (ch, st) = (CHAINS[c], &chains[c]);
        let m = &msgs[s.idx(2)];
        let val = |v: Value| Ok(json!({ "v": v }));
        let txs = |v: Vec<Value>| Ok(json!({ "txs": v }));
        let (k, o, r): (&str, Value, Result<Value, ()>) = match s.weighted(&[24, 24, 12, 12]) {
            0 => match s.below(20) {
                0 => ("read", json!({"op": "mode"}), val(json!(if mode == 0 { "locking" } else { "burning" }))),
                1 => ("read", json!({"op": "paused"}), val(json!(paused))),
                2 => ("read", json!({"op": "owner"}), val(json!(hex(&owner)))),
                3 => ("read", json!({"op": "pauser"}), val(json!(hex(&pauser)))),
                4 => ("read", json!({"op": "threshold"}), val(json!(threshold))),
                5 => ("read", json!({"op": "relaying", "chain": ch}), val(json!(st.relaying || st.special))),
                6 => ("read", json!({"op": "decimals"}), val(json!(decimals))),
                7 => (
                    "peer read",
                    json!({"op": "peer", "chain": ch}),
                    val(match &st.peer {
                        None => Value::Null,
                        Some(p) => json!({"address": {"chain": ch.to_lowercase(), "address": hex(&p.addr)}, "tokenDecimals": p.decimals, "inboundLimit": scale(st.limit.0 as u128, st.limit.1, decimals).to_string()}),
                    }),
                ),
                8 => ("read", json!({"op": "custody"}), val(json!(ox(&manager)))),
                9 => {
                    let auto = s.bool();
                    ("quote", json!({"op": "quote", "chain": ch, "automatic": auto}), val(json!(st.price[!auto as usize].to_string())))
                }
                10 => ("read", json!({"op": "outCapacity"}), val(json!(out_cap.to_string()))),
                11 => ("read", json!({"op": "inCapacity", "chain": ch}), val(json!(st.capacity.to_string()))),
                12 => ("limit read", json!({"op": "outLimit"}), val(json!(scale(out.0 as u128, out.1, decimals).to_string()))),
                13 => ("limit read", json!({"op": "inLimit", "chain": ch}), val(json!(scale(st.limit.0 as u128, st.limit.1, decimals).to_string()))),
                14 => ("read", json!({"op": "duration"}), val(json!(duration.to_string()))),
                15 => {
                    let mut r = Map::new();
                    if remote_token != token {
                        r.insert("token".into(), json!(ox(&remote_token)));
                    }
                    if remote_xcvr != xcvr {
                        r.insert("transceiver".into(), json!({"wormhole": ox(&remote_xcvr)}));
                    }
                    ("addresses verified", json!({"op": "verify"}), val(if r.is_empty() { Value::Null } else { Value::Object(r) }))
                }
                16 => ("read", json!({"op": "xPauser"}), val(json!(hex(&xpauser)))),
                17 => ("peer read", json!({"op": "xPeer", "chain": ch}), val(st.xpeer.map_or(Value::Null, |p| json!({"chain": ch.to_lowercase(), "address": hex(&p)})))),
                18 => match s.below(3) {
                    0 => ("read", json!({"op": "xEvm", "chain": ch}), val(json!(st.evm))),
                    1 => ("read", json!({"op": "xRelaying", "chain": ch}), val(json!(st.relaying))),
                    _ => ("read", json!({"op": "xSpecial", "chain": ch}), val(json!(st.special))),
                },
                _ => ("read", json!({"op": "xAddress"}), val(json!({"chain": CHAINS[here].to_lowercase(), "address": hex(&padded(&xcvr))}))),
            },
            // a message's progress
            1 => match s.below(5) {
                0 => ("message progress", json!({"op": "approved", "msg": m.0}), val(json!(m.2 > 0))),
                1 => ("message progress", json!({"op": "executed", "msg": m.0}), val(json!(m.2 == 3))),
                2 => ("message progress", json!({"op": "isQueued", "msg": m.0}), val(json!(m.2 == 2))),
                3 => (
                    if m.2 == 2 { "queued transfer read" } else { "message progress" },
                    json!({"op": "queued", "msg": m.0}),
                    val(if m.2 == 2 {
                        json!({"recipient": hex(&m.3 .3), "amount": scale(m.3 .0 as u128, m.3 .1, decimals).to_string(), "rateLimitExpiryTimestamp": m.3 .2 + duration})
                    } else {
                        Value::Null
                    }),
                ),
                _ => ("queued transfer completed", json!({"op": "complete", "msg": m.0}), txs(vec![tx(&manager, "completeInboundQueuedTransfer(bytes32)", &[m.1.to_vec()], 0, None)])),
            },
            // transfers
            2 => match s.below(3) {
                0 => {
                    let n = if s.chance(1, 4) { 2 * s.below(2) } else { 1 };
                    let ms: Vec<&Value> = (0..n).map(|_| &m.0).collect();
                    let ok = n == 1 && m.5 == "WormholeTransfer";
                    ("message redeemed", json!({"op": "redeem", "msgs": ms}), if ok { txs(vec![tx(&xcvr, "receiveMessage(bytes)", &[w(32), bytes(&m.4)], 0, None)]) } else { Err(()) })
                }
                _ => {
                    let (queue, auto) = (s.bool(), s.bool());
                    let to = foreign(s, c);
                    let mut v = vec![];
                    if allowance < amount {
                        v.push(tx(&token, "approve(address,uint256)", &[wa(&manager), w(amount)], 0, Some(&sender)));
                    }
                    v.push(tx(
                        &manager,
                        "transfer(uint256,uint16,bytes32,bytes32,bool,bytes)",
                        &[w(amount), id, to.to_vec(), to.to_vec(), w(queue as u128), w(192), bytes(&[1, 0, 1, !auto as u8])],
                        st.price[!auto as usize],
                        Some(&sender),
                    ));
                    (
                        if allowance < amount { "transfer approved and sent" } else { "transfer sent" },
                        json!({"op": "transfer", "sender": ox(&sender), "amount": amount.to_string(), "to": {"chain": ch, "address": hex(&to)}, "queue": queue, "automatic": auto}),
                        txs(v),
                    )
                }
            },
            // administration
            _ => {
                let who = addr(s);
                let on = s.bool();
                let p = foreign(s, c);
                let peer = json!({"chain": ch, "address": hex(&p)});
                let lim = s.mag64() as u128 * *s.pick(&[1u128, 1 << 40]);
                let set = |sig: &str| txs(vec![tx(&xcvr, sig, &[id.clone(), w(on as u128)], 0, None)]);
                let (o, r) = match s.below(12) {
                    0 => (json!({"op": "pause"}), txs(vec![tx(&manager, "pause()", &[], 0, None)])),
                    1 => (json!({"op": "unpause"}), txs(vec![tx(&manager, "unpause()", &[], 0, None)])),
                    2 => (json!({"op": "setOwner", "who": ox(&who)}), txs(vec![tx(&manager, "transferOwnership(address)", &[wa(&who)], 0, None)])),
                    3 => (json!({"op": "setPauser", "who": ox(&who)}), txs(vec![tx(&manager, "transferPauserCapability(address)", &[wa(&who)], 0, None)])),
                    4 => {
                        let d = s.below(256) as u8;
                        (json!({"op": "setPeer", "peer": peer, "decimals": d, "limit": lim.to_string()}), txs(vec![tx(&manager, "setPeer(uint16,bytes32,uint8,uint256)", &[id, p.to_vec(), w(d as u128), w(lim)], 0, None)]))
                    }
                    5 => (json!({"op": "setXPeer", "via": s.below(3), "peer": peer}), txs(vec![tx(&xcvr, "setWormholePeer(uint16,bytes32)", &[id, p.to_vec()], 0, None)])),
                    6 => (json!({"op": "setNoPeer", "index": 1 + s.below(3), "peer": peer}), Err(())),
                    7 => (json!({"op": "xSetPauser", "who": ox(&who)}), txs(vec![tx(&xcvr, "transferPauserCapability(address)", &[wa(&who)], 0, None)])),
                    8 => (json!({"op": "xSetEvm", "chain": ch, "on": on}), set("setIsWormholeEvmChain(uint16,bool)")),
                    9 => (json!({"op": "xSetRelaying", "chain": ch, "on": on}), set("setIsWormholeRelayingEnabled(uint16,bool)")),
                    10 => (json!({"op": "xSetSpecial", "chain": ch, "on": on}), set("setIsSpecialRelayingEnabled(uint16,bool)")),
                    _ => {
                        if on {
                            (json!({"op": "setOutLimit", "limit": lim.to_string()}), txs(vec![tx(&manager, "setOutboundLimit(uint256)", &[w(lim)], 0, None)]))
                        } else {
                            (json!({"op": "setInLimit", "chain": ch, "limit": lim.to_string()}), txs(vec![tx(&manager, "setInboundLimit(uint256,uint16)", &[w(lim), id], 0, None)]))
                        }
                    }
                };
                ("administration", o, r)
            }
        };
        s.end();
        ops.push(o);
        want.push(r);
        kinds.push(k);
    }
    let selectors: Vec<String> = READS.iter().map(|r| data(r, &[])).collect();
    let rpc = how == 2;
    let q = json!({"network": network, "chain": CHAINS[here], "core": checksummed(&core), "ntt": {"manager": checksummed(&manager), "token": checksummed(&token), "transceiver": {"wormhole": checksummed(&xcvr)}},
        "version": if how == 1 { Value::Null } else { json!(version) }, "rpc": if rpc { json!(rpc_net) } else { Value::Null }, "calls": calls, "selectors": selectors, "ops": ops});
    let Some(r) = call("evm", &q, obs) else { return Ok(()) };
    let possible = (supported || how == 1) && !(rpc && rpc_net != network);
    let r = match r {
        Ok(r) if possible => r,
        Err(_) if !possible => {
            obs.class("unsupported deployment refused");
            return Ok(());
        }
        r => return Err(bad("C34", "deployment", format!("client for version {version} on {network} (configured for {rpc_net}, from the chain: {rpc}): {r:?}"))),
    };
    for i in 0..ops.len() {
        obs.ops += 1;
        let g = &r[i];
        if g["missing"] == json!(true) {
            obs.class("skip:client needs a library the stand-ins lack");
            continue;
        }
        let ok = match &want[i] {
            Ok(w) => g == w,
            Err(()) => g["err"].is_string(),
        };
        if !ok {
            return Err(bad("C34", ops[i]["op"].as_str().unwrap(), format!("{} with token decimals {decimals}: {g}, must be {:?}", ops[i], want[i])));
        }
        if want[i].is_err() {
            obs.class("refused by the EVM client");
        } else {
            obs.class(match kinds[i] {
                "read" => "EVM state read",
                "peer read" => "EVM peer read",
                "limit read" => "EVM limit read",
                "quote" => "EVM delivery price read",
                "addresses verified" => "EVM addresses verified",
                "message progress" => "EVM message progress read",
                "queued transfer read" => "EVM queued transfer read",
                "queued transfer completed" => "EVM queued transfer completed",
                "message redeemed" => "EVM message redeemed",
                "transfer approved and sent" => "EVM transfer approved and sent",
                "transfer sent" => "EVM transfer sent",
                _ => "EVM administration",
            });
        }
    }
    Ok(())
}
