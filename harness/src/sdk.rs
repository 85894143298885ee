//! The TypeScript definitions, route and CLI helpers: message layouts, amounts, contract lookup, configuration diffs.
use crate::client::{ask, hex, msg_json, No};
use crate::engine::{Fail, Obs, Src};
use crate::layout::*;
use serde_json::{json, Map, Value};

pub fn bad(tag: &'static str, site: &str, msg: String) -> Fail {
    Fail { site: format!("sdk:{site}"), tags: vec![tag], msg }
}
/// None: nothing can be said
pub fn call(f: &str, a: &Value, obs: &mut Obs) -> Option<Result<Value, String>> {
    obs.ops += 1;
    obs.mix(&a.to_string());
    obs.log(|| format!("{f} {a}"));
    match ask(&json!({"f": f, "a": a})) {
        Ok(v) => Some(Ok(v["v"].clone())),
        Err(No::Err(e)) => Some(Err(e)),
        Err(No::Missing(_)) => {
            obs.class("skip:client needs a library the stand-ins lack");
            None
        }
    }
}
pub fn xfer(s: &mut Src) -> Xfer {
    let chain = |s: &mut Src| match s.below(3) {
        0 => *s.pick(&[1u16, 2, 4, 23, 30]),
        1 => *s.pick(&[0u16, 255, 256, 65535, 0x8000]),
        _ => s.below(65536) as u16,
    };
    Xfer {
        source_mgr: s.bytes32(),
        recipient_mgr: s.bytes32(),
        id: s.bytes32(),
        sender: s.bytes32(),
        amount: s.mag64(),
        decimals: if s.chance(3, 4) { s.below(19) as u8 } else { s.below(256) as u8 },
        token: s.bytes32(),
        to: s.bytes32(),
        to_chain: chain(s),
    }
}
fn prefixed(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}

const PREFIXED: &[&str] = &["WormholeTransfer", "NativeTokenTransfer", "TransceiverInfo", "TransceiverRegistration", "TransceiverMessageRaw"];

pub fn messages(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    let mut n = 0;
    while n < 12 && s.more(5) {
        s.begin();
        n += 1;
        let x = xfer(s);
        let long = if s.chance(1, 8) { 700 } else { 50 };
        let extra = if s.chance(1, 3) { s.bytes(long) } else { vec![] };
        let raw = s.bytes(long);
        let mode = s.below(2) as u8;
        let prefix = [0x99, 0x45, 0xFF, 0x10];
        let ntt = {
            let mut v = x.ntt_payload();
            if !extra.is_empty() {
                v.extend(prefixed(&extra));
            }
            v
        };
        let mgr = |p: &[u8]| [&x.id[..], &x.sender[..], &prefixed(p)].concat();
        let head = |p: &[u8]| [&prefix[..], &x.source_mgr[..], &x.recipient_mgr[..], &prefixed(p)].concat();
        let kind = *s.pick(&["WormholeTransfer", "NttManagerMessage", "NttManagerMessageRaw", "NativeTokenTransfer", "TransceiverInfo", "TransceiverRegistration", "TransceiverMessageRaw"]);
        let m = msg_json(&x);
        let pick = |ks: &[&str]| -> Map<String, Value> { ks.iter().map(|k| (k.to_string(), m[*k].clone())).collect() };
        let transfer = ["amount", "decimals", "token", "to", "toChain"];
        let (bytes, mut fields) = match kind {
            "WormholeTransfer" => ([head(&mgr(&ntt)), vec![0, 0]].concat(), pick(&[&["sourceMgr", "recipientMgr", "id", "sender"], &transfer[..]].concat())),
            "NttManagerMessage" => (mgr(&ntt), pick(&[&["id", "sender"], &transfer[..]].concat())),
            "NttManagerMessageRaw" => (mgr(&raw), pick(&["id", "sender"])),
            "NativeTokenTransfer" => (ntt.clone(), pick(&transfer)),
            "TransceiverInfo" => (info_payload(&x.source_mgr, mode, &x.token, x.decimals), pick(&["sourceMgr", "token", "decimals"])),
            "TransceiverRegistration" => (registration_payload(x.to_chain, &x.to), pick(&["toChain", "to"])),
            _ => ([head(&raw), prefixed(&extra)].concat(), pick(&["sourceMgr", "recipientMgr"])),
        };
        match kind {
            "WormholeTransfer" | "NttManagerMessage" | "NativeTokenTransfer" => {
                fields.insert("extra".into(), json!(hex(&extra)));
            }
            "NttManagerMessageRaw" => {
                fields.insert("raw".into(), json!(hex(&raw)));
            }
            "TransceiverInfo" => {
                fields.insert("mode".into(), json!(mode));
            }
            "TransceiverMessageRaw" => {
                fields.insert("raw".into(), json!(hex(&raw)));
                fields.insert("extra".into(), json!(hex(&extra)));
            }
            _ => {}
        }
        let mut a = Value::Object(fields.clone());
        a["kind"] = json!(kind);
        a["prefix"] = json!(hex(&prefix));
        obs.mix(kind);
        obs.log(|| format!("{kind} {}", Value::Object(fields.clone())));
        match call("enc", &a, obs) {
            None => {}
            Some(Err(e)) => return Err(bad("C28", &format!("encode:{kind}"), format!("{kind} {a} is not encoded: {e}"))),
            Some(Ok(v)) => {
                if v != json!(hex(&bytes)) {
                    return Err(bad("C28", &format!("encode:{kind}"), format!("{kind} {a} is encoded as {v}, its bytes are {}", hex(&bytes))));
                }
                obs.class("message encoded");
                if !extra.is_empty() {
                    obs.class("message with an additional payload");
                }
            }
        }
        let d = |b: &[u8]| json!({"kind": kind, "prefix": hex(&prefix), "bytes": hex(b)});
        match call("dec", &d(&bytes), obs) {
            None => {}
            Some(Err(e)) => return Err(bad("C28", &format!("decode:{kind}"), format!("{kind} {} is not decoded: {e}", hex(&bytes)))),
            Some(Ok(v)) => {
                if v != Value::Object(fields.clone()) {
                    return Err(bad("C28", &format!("decode:{kind}"), format!("{kind} {} is decoded as {v}, it says {}", hex(&bytes), Value::Object(fields))));
                }
                obs.class("message decoded");
            }
        }
        // cut short: the optional payload of a bare transfer runs to the end, so only its fixed part counts there
        let fixed = if kind == "NativeTokenTransfer" { 79 } else { bytes.len() };
        let cut = s.below(fixed as u64) as usize;
        if let Some(Ok(v)) = call("dec", &d(&bytes[..cut]), obs) {
            return Err(bad("C28", &format!("truncated:{kind}"), format!("{kind} {} with only {cut} of {} bytes is decoded as {v}", hex(&bytes[..cut]), bytes.len())));
        }
        obs.class("truncated message refused");
        if PREFIXED.contains(&kind) {
            let mut b = bytes.clone();
            b[s.idx(4)] ^= 1 << s.below(8);
            if let Some(Ok(v)) = call("dec", &d(&b), obs) {
                return Err(bad("C28", &format!("prefix:{kind}"), format!("{kind} with prefix {} is decoded as {v}", hex(&b[..4]))));
            }
            obs.class("message of another type refused");
        } else if kind == "NttManagerMessage" {
            let mut b = bytes.clone();
            b[66 + s.idx(4)] ^= 1 << s.below(8);
            if let Some(Ok(v)) = call("dec", &d(&b), obs) {
                return Err(bad("C28", "prefix:transfer", format!("a transfer with prefix {} is decoded as {v}", hex(&b[66..70]))));
            }
            obs.class("message of another type refused");
        }
        let from = if s.bool() { *s.pick(&[1u16, 2, 30]) } else { s.below(65536) as u16 };
        let mut q = m.clone();
        q["chain"] = json!(from);
        q["extra"] = json!(hex(&extra));
        let want = solana_sdk::keccak::hashv(&[&from.to_be_bytes(), &mgr(&ntt)]).to_bytes();
        match call("digest", &q, obs) {
            None => {}
            Some(v) => {
                if v != Ok(json!(hex(&want))) {
                    return Err(bad("C28", "digest", format!("the identity of message {q} is {v:?}, must be {}", hex(&want))));
                }
                obs.class("message identified");
            }
        }
        if s.chance(1, 4) {
            let k = if s.chance(1, 12) { 256 } else { s.below(6) };
            let list: Vec<(u8, Vec<u8>)> = (0..k).map(|_| (s.below(256) as u8, if k > 6 { vec![] } else { s.bytes(255) })).collect();
            let mut want = vec![list.len() as u8];
            for (i, p) in &list {
                want.push(*i);
                want.push(p.len() as u8);
                want.extend_from_slice(p);
            }
            let a = json!({"list": list.iter().map(|(i, p)| json!([i, hex(p)])).collect::<Vec<_>>()});
            match (call("instructions", &a, obs), k > 255) {
                (Some(Ok(v)), false) if v == json!(hex(&want)) => obs.class("transceiver instructions encoded"),
                (Some(Err(_)), true) | (None, _) => {}
                (Some(r), _) => return Err(bad("C28", "instructions", format!("transceiver instructions {a} are encoded as {r:?}"))),
            }
        }
        s.end();
    }
    Ok(())
}

// ---- route and CLI helpers ----

#[derive(Clone)]
struct Entry {
    chain: usize,
    token: String,
    manager: String,
    wormhole: String,
    quoter: Option<String>,
}
pub const CHAINS: [&str; 5] = ["Solana", "Ethereum", "Bsc", "Arbitrum", "Base"];

fn flip(s: &mut Src, a: &str) -> String {
    let m = s.raw64();
    a.chars().enumerate().map(|(i, c)| if i > 1 && m >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
}
fn contracts(e: &Entry) -> Value {
    let mut v = json!({"token": e.token, "manager": e.manager, "transceiver": {"wormhole": e.wormhole}});
    if let Some(q) = &e.quoter {
        v["quoter"] = json!(q);
    }
    v
}

fn groups_json(groups: &[Vec<Entry>]) -> Value {
    let mut tokens = Map::new();
    for (i, g) in groups.iter().enumerate() {
        let l: Vec<Value> = g
            .iter()
            .map(|e| {
                let mut v = json!({"chain": CHAINS[e.chain], "token": e.token, "manager": e.manager, "transceiver": [{"type": "wormhole", "address": e.wormhole}]});
                if let Some(q) = &e.quoter {
                    v["quoter"] = json!(q);
                }
                v
            })
            .collect();
        tokens.insert(format!("T{i}"), Value::Array(l));
    }
    json!({ "tokens": tokens })
}
fn token_groups(s: &mut Src) -> (Vec<Vec<Entry>>, Value) {
    let mut groups: Vec<Vec<Entry>> = vec![];
    for g in 0..s.range(1, 4) {
        let mut v = vec![];
        let from = s.idx(5);
        for i in 0..s.range(1, 4) {
            // a token may share its address with another one on another chain
            let twin = groups.iter().flatten().map(|e: &Entry| e.clone()).filter(|e| e.chain != (from + i as usize) % 5).collect::<Vec<_>>();
            let share = !twin.is_empty() && s.chance(1, 4);
            let mk = |s: &mut Src, k: &str| { let a = format!("0x{k}{g}{i}abcdef{}", s.below(3)); flip(s, &a) };
            let mut e = Entry {
                chain: (from + i as usize) % 5,
                token: mk(s, "aa"),
                manager: mk(s, "bb"),
                wormhole: mk(s, "cc"),
                quoter: if s.bool() { Some(mk(s, "dd")) } else { None },
            };
            if share {
                let o = s.pick(&twin).clone();
                let clash = groups.iter().flatten().any(|x| x.chain == e.chain && (x.token.eq_ignore_ascii_case(&o.token) || x.manager.eq_ignore_ascii_case(&o.manager)))
                    || v.iter().any(|x: &Entry| x.chain == e.chain);
                if !clash {
                    e.token = o.token;
                    e.manager = o.manager;
                }
            }
            v.push(e);
        }
        groups.push(v);
    }
    let config = groups_json(&groups);
    (groups, config)
}

pub fn route(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    // amounts
    s.begin();
    let dec = s.below(20);
    let dst = s.below(20);
    let amt = if s.bool() { s.mag64() as u128 } else { (s.raw64() as u128) << 64 | s.raw64() as u128 };
    let keep = dec.min(dst).min(8);
    let unit = 10u128.pow((dec - keep) as u32);
    if let Some(v) = call("trim", &json!({"amount": amt.to_string(), "decimals": dec, "dst": dst}), obs) {
        // one decimal string at some scale: compare values
        let ok = v.as_ref().ok().and_then(|v| Some((v[0].as_str()?.parse::<u128>().ok()?, v[1].as_u64()?))).map(|(a, d)| d == dec && a == amt / unit * unit);
        if ok != Some(true) {
            return Err(bad("C32", "trim", format!("{amt} at {dec} decimals for a token with {dst} is trimmed to {v:?}, must be {}", amt / unit * unit)));
        }
        obs.class(if amt % unit == 0 { "amount without dust" } else { "dust removed" });
    }
    let cap = if s.bool() { s.below(1000) } else { s.mag64() } as u128;
    let at = cap * 95 / 100;
    let a = match s.below(4) {
        0 => at,
        1 => at + 1,
        2 => at.saturating_sub(1),
        _ => s.mag64() as u128,
    };
    if let Some(v) = call("threshold", &json!({"amount": a.to_string(), "capacity": cap.to_string()}), obs) {
        if v != Ok(json!(a * 100 > cap * 95)) {
            return Err(bad("C32", "threshold", format!("amount {a} against capacity {cap}: above 95 % reported as {v:?}")));
        }
    }
    let n = |s: &mut Src| s.below(4) + if s.chance(1, 6) { 9 } else { 0 };
    let (t, b) = ((n(s), n(s)), (n(s), n(s)));
    let tag = *s.pick(&["0", "7", "1-beta", "12"]);
    if let Some(v) = call("abi", &json!({"target": format!("{}.{}.{tag}", t.0, t.1), "abi": format!("{}.{}.0", b.0, b.1)}), obs) {
        if v != Ok(json!(t.0 == b.0 && t.1 >= b.1)) {
            return Err(bad("C32", "version", format!("contract version {t:?} with client version {b:?}: compatible reported as {v:?}")));
        }
    }
    // the interface the client uses for a deployed program
    let v = (s.below(6), s.below(3), s.below(12));
    let label = *s.pick(&["", "-beta", "-rc.1"]);
    let want = [1u64, 2, 3].contains(&v.0).then(|| format!("{}.0.0", v.0));
    if let Some(r) = call("version", &json!({"version": format!("{}.{}.{}{label}", v.0, v.1, v.2)}), obs) {
        if r.as_ref().ok().and_then(|r| r.as_str()) != want.as_deref() {
            return Err(bad("C32", "interface", format!("for a program of version {v:?} the client uses {r:?}, must be {want:?}")));
        }
    }
    s.end();
    // contract lookup
    s.begin();
    let (groups, config) = token_groups(s);
    let c = s.idx(5);
    if let Some(r) = call("sources", &json!({"config": config, "chain": CHAINS[c]}), obs) {
        let strings = |v: &Value| -> std::collections::BTreeSet<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str()).map(|x| x.to_string()).collect() };
        let here: std::collections::BTreeSet<String> = groups.iter().filter_map(|g| g.iter().find(|e| e.chain == c)).map(|e| e.token.clone()).collect();
        let chains: std::collections::BTreeSet<String> = groups.iter().flatten().map(|e| CHAINS[e.chain].to_string()).collect();
        if r.as_ref().map(|v| (strings(&v[0]), strings(&v[1]))) != Ok((here.clone(), chains.clone())) {
            return Err(bad("C32", "sources", format!("{config}: tokens on {} and chains are {r:?}, must be {here:?} and {chains:?}", CHAINS[c])));
        }
    }
    let all: Vec<(usize, Entry)> = groups.iter().enumerate().flat_map(|(i, g)| g.iter().map(move |e| (i, e.clone()))).collect();
    for _ in 0..3 {
        let (gi, e) = s.pick(&all).clone();
        let to = s.idx(5);
        let ask_chain = if s.chance(1, 5) { s.idx(5) } else { e.chain };
        let tok = flip(s, &e.token.to_ascii_lowercase());
        let mgr = flip(s, &e.manager.to_ascii_lowercase());
        let _ = gi;
        let by = |f: &dyn Fn(&Entry) -> bool| all.iter().find(|(_, x)| x.chain == ask_chain && f(x)).map(|(i, x)| (*i, x.clone()));
        let src = by(&|x| x.token.eq_ignore_ascii_case(&tok));
        let man = by(&|x| x.manager.eq_ignore_ascii_case(&mgr));
        let remote = |i: usize| groups[i].iter().find(|x| x.chain == to).cloned();
        let want: Vec<Value> = src.iter().filter_map(|(i, _)| remote(*i)).map(|x| json!({"chain": CHAINS[x.chain], "address": x.token})).collect();
        if let Some(v) = call("dests", &json!({"config": config, "token": tok, "from": CHAINS[ask_chain], "to": CHAINS[to]}), obs) {
            if v != Ok(json!(want)) {
                return Err(bad("C32", "destinations", format!("{config}: token {tok} on {} goes to {v:?} on {}, must be {want:?}", CHAINS[ask_chain], CHAINS[to])));
            }
            if !want.is_empty() {
                obs.class("destination token found");
            }
        }
        for (f, a, want) in [
            ("contracts", json!({"config": config, "token": tok, "chain": CHAINS[ask_chain]}), src.as_ref().map(|x| contracts(&x.1))),
            ("destContracts", json!({"config": config, "manager": mgr, "chain": CHAINS[ask_chain], "to": CHAINS[to]}), man.as_ref().and_then(|(i, _)| remote(*i)).map(|x| contracts(&x))),
        ] {
            match (call(f, &a, obs), want) {
                (None, _) | (Some(Err(_)), None) => {}
                (Some(Ok(v)), Some(w)) if v == w => obs.class("contracts found"),
                (Some(r), w) => return Err(bad("C32", f, format!("{f} of {a}: {r:?}, must be {w:?}"))),
            }
        }
    }
    s.end();
    // configuration differences
    s.begin();
    fn tree(s: &mut Src, depth: u64) -> Value {
        if depth == 0 || s.chance(1, 3) {
            return match s.below(4) {
                0 => json!(s.below(3)),
                1 => json!(s.bool()),
                _ => json!(*s.pick(&["", "0x1", "0x2", "locking"])),
            };
        }
        let mut m = Map::new();
        for _ in 0..s.below(4) {
            m.insert(s.pick(&["token", "limits", "inbound", "mode", "push", "pull"]).to_string(), tree(s, depth - 1));
        }
        Value::Object(m)
    }
    let root = |s: &mut Src| loop {
        if let v @ Value::Object(_) = tree(s, 3) {
            break v;
        }
    };
    let a = root(s);
    let mut b = if s.bool() { a.clone() } else { root(s) };
    if s.bool() {
        if let Some(m) = b.as_object_mut() {
            m.insert("mode".into(), tree(s, 2));
        }
    }
    fn diff(a: &Map<String, Value>, b: &Map<String, Value>) -> Map<String, Value> {
        let mut r = Map::new();
        for k in a.keys().chain(b.keys()) {
            match (a.get(k), b.get(k)) {
                (Some(Value::Object(x)), Some(Value::Object(y))) => {
                    let d = diff(x, y);
                    if !d.is_empty() {
                        r.insert(k.clone(), Value::Object(d));
                    }
                }
                (Some(x), Some(y)) => {
                    if x != y {
                        r.insert(k.clone(), json!({"push": x, "pull": y}));
                    }
                }
                (Some(x), None) => {
                    r.insert(k.clone(), json!({ "push": x }));
                }
                (None, Some(y)) => {
                    r.insert(k.clone(), json!({ "pull": y }));
                }
                (None, None) => {}
            }
        }
        r
    }
    let want = Value::Object(diff(a.as_object().unwrap(), b.as_object().unwrap()));
    if let Some(v) = call("diff", &json!({"a": a, "b": b}), obs) {
        if v != Ok(want.clone()) {
            return Err(bad("C32", "diff", format!("local {a} against deployed {b}: {v:?}, must be {want}")));
        }
        obs.class(if want == json!({}) { "configurations agree" } else { "configurations differ" });
    }
    s.end();
    Ok(())
}

/// the manual and automatic routes over recorded protocols
pub fn flow(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    send(s, obs)?;
    track(s, obs)
}
fn bare(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.as_object_mut() {
        m.remove("quoter");
    }
    v
}
fn send(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    s.begin();
    let (groups, config) = token_groups(s);
    let pairs: Vec<(&Entry, &Entry)> = groups.iter().flat_map(|g| g.iter().flat_map(move |a| g.iter().filter(move |b| a.chain != b.chain).map(move |b| (a, b)))).collect();
    if pairs.is_empty() {
        s.end();
        return Ok(());
    }
    let (a, b) = *s.pick(&pairs);
    let known = !s.chance(1, 12);
    let auto = s.bool();
    let (sd, dd) = (s.below(19), s.below(19));
    let nd = [9u64, 18, 6, 8, 12];
    let native = |c: usize| nd[c];
    // a decimal number with at most `d` decimals, and its value in base units
    let decimal = |s: &mut Src, d: u64, small: bool| -> (String, u128) {
        let whole = if small { s.below(5) } else if s.bool() { s.below(1_000_000) } else { s.mag64() >> 20 };
        let n = s.below(d + 1) as usize;
        let f: String = (0..n).map(|_| char::from(b'0' + s.below(10) as u8)).collect();
        let v: u128 = format!("{whole}{f:0<w$}", w = d as usize).parse().unwrap();
        (if n == 0 { format!("{whole}") } else { format!("{whole}.{f}") }, v)
    };
    let (amount, units) = decimal(s, sd, false);
    let options = s.below(3);
    let (dtext, drop) = if options == 2 { decimal(s, native(b.chain), true) } else { ("".into(), 0) };
    let keep = sd.min(dd).min(8);
    let unit = 10u128.pow((sd - keep) as u32);
    let sent = units / unit * unit;
    let got = if dd >= sd { sent * 10u128.pow((dd - sd) as u32) } else { sent / 10u128.pow((sd - dd) as u32) };
    let duration = if s.chance(1, 4) { 0 } else { s.range(1, 100_000) };
    let edge = got * 100 / 95;
    let cap = match s.below(4) {
        0 => edge,
        1 => edge + 1,
        2 => edge.saturating_sub(1),
        _ => s.mag64() as u128,
    };
    let relaying = !s.chance(1, 5);
    let price = s.mag64() >> 8;
    let recipient = hex(&s.bytes32());
    let signer = format!("0x{:x}", s.below(1 << 20));
    let opts = match options {
        0 => Value::Null,
        1 => json!({ "automatic": auto }),
        _ => json!({ "automatic": auto, "gasDropoff": dtext }),
    };
    let (tok_a, tok_b) = (flip(s, &a.token.to_ascii_lowercase()), flip(s, &b.token.to_ascii_lowercase()));
    let tok_a = if known { tok_a } else { "0x123".into() };
    let mut nat = Map::new();
    for c in [a.chain, b.chain] {
        nat.insert(CHAINS[c].into(), json!(native(c)));
    }
    let q = json!({"kind": if auto { "automatic" } else { "manual" }, "config": config, "from": CHAINS[a.chain], "to": CHAINS[b.chain], "native": nat, "srcToken": tok_a, "dstToken": tok_b,
        "srcDecimals": sd, "dstDecimals": dd, "amount": amount, "options": opts, "relaying": relaying, "price": price.to_string(), "duration": duration, "capacity": cap.to_string(),
        "recipient": recipient, "signer": signer, "approved": false, "executed": false, "queuedUntil": null});
    s.end();
    let Some(r) = call("routeSend", &q, obs) else { return Ok(()) };
    let r = match r {
        Ok(r) if known => r,
        Err(_) if !known => {
            obs.class("unknown token refused");
            return Ok(());
        }
        r => return Err(bad("C33", "send", format!("sending by route {q}: {r:?}"))),
    };
    if auto && !relaying {
        if r["refused"].is_null() {
            return Err(bad("C33", "unavailable", format!("automatic transfer although no relay is available {q}: {r}")));
        }
        obs.class("no relay available");
        return Ok(());
    }
    let warn = duration > 0 && got * 100 > cap * 95;
    let want = json!({
        "source": [{"chain": CHAINS[a.chain], "address": tok_a}, {"amount": sent.to_string(), "decimals": sd}],
        "destination": [{"chain": CHAINS[b.chain], "address": tok_b}, {"amount": got.to_string(), "decimals": dd}],
        "fee": if auto { json!({"token": {"chain": CHAINS[a.chain], "address": "native"}, "amount": {"amount": (price as u128 + drop).to_string(), "decimals": native(a.chain)}}) } else { Value::Null },
        "gas": if auto { json!({"amount": drop.to_string(), "decimals": native(b.chain)}) } else { Value::Null },
        "warnings": if warn { json!([{"type": "DestinationCapacityWarning", "delayDurationSec": duration}]) } else { json!([]) },
        "receipt": {"from": CHAINS[a.chain], "to": CHAINS[b.chain], "state": "SourceInitiated", "txs": [{"chain": CHAINS[a.chain], "txid": format!("transfer on {}", CHAINS[a.chain])}]},
        "sent": [["transfer", CHAINS[a.chain], contracts(a), [signer, sent.to_string(), {"chain": CHAINS[b.chain], "address": recipient}, {"queue": false, "automatic": auto, "gasDropoff": drop.to_string()}]]],
    });
    for (k, w) in want.as_object().unwrap() {
        if r[k] != *w && !(k == "gas" || k == "fee") || auto && r[k] != *w {
            return Err(bad("C33", k, format!("sending by route {q}: {k} is {}, must be {w}", r[k])));
        }
    }
    obs.class("transfer sent as quoted");
    obs.class(if warn { "capacity warning" } else { "no capacity warning" });
    if sent != units {
        obs.class("dust left out of a routed transfer");
    }
    Ok(())
}
fn track(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    s.begin();
    let (mut groups, _) = token_groups(s);
    let gi = s.idx(groups.len());
    let x = xfer(s);
    let from = s.idx(groups[gi].len());
    let to = s.idx(groups[gi].len());
    if from == to {
        s.end();
        return Ok(());
    }
    let emitter = s.bytes32();
    // the manager as the message names it
    groups[gi][from].manager = flip(s, &format!("0x{}", hex(&x.source_mgr)));
    let config = groups_json(&groups);
    let (a, b) = (&groups[gi][from], &groups[gi][to]);
    let auto = s.bool();
    let evm = a.chain != 0 && b.chain != 0;
    let ty = if auto && evm { "Ntt:WormholeTransferStandardRelayer" } else { "Ntt:WormholeTransfer" };
    let resume = (!auto || evm) && s.chance(1, 3);
    let start = if resume { "Attested" } else { *s.pick(&["SourceInitiated", "SourceFinalized", "Attested", "DestinationInitiated", "DestinationQueued"]) };
    // what the destination says about the message: nothing, approved, queued, paid
    let stage = s.below(4);
    let approved = stage > 0;
    let executed = stage == 3;
    let until = if stage == 2 { Some(s.range(1, 1 << 33)) } else { None };
    let found = !s.chance(1, 10);
    let signer = format!("0x{:x}", s.below(1 << 20));
    let mut m = msg_json(&x);
    let to_id = [1u16, 2, 4, 23, 30][b.chain];
    m["toChain"] = json!(to_id);
    m["emitter"] = json!(hex(&emitter));
    let q = json!({"kind": if auto { "automatic" } else { "manual" }, "config": config, "from": CHAINS[a.chain], "to": CHAINS[b.chain], "msg": m, "state": start, "resume": resume, "txid": "tx1", "vaaType": if found { ty } else { "" },
        "approved": approved, "executed": executed, "queuedUntil": until, "signer": signer, "src": contracts(a), "dst": contracts(b)});
    s.end();
    let Some(r) = call("routeTrack", &q, obs) else { return Ok(()) };
    let early = resume || start.starts_with("Source");
    if !found {
        if !early {
            return Ok(());
        }
        return match r {
            Err(_) => {
                obs.class("transfer without message not tracked");
                Ok(())
            }
            r => Err(bad("C33", "track", format!("tracking a transfer whose message cannot be found {q}: {r:?}"))),
        };
    }
    let Ok(r) = r else { return Err(bad("C33", "track", format!("tracking {q}: {r:?}"))) };
    let mut want: Vec<(&str, Option<u64>)> = vec![];
    let mut at = start;
    if at.starts_with("Source") {
        at = "Attested";
        want.push((at, None));
    }
    if at == "Attested" && approved {
        at = "DestinationInitiated";
        want.push((at, None));
    }
    let mut queued_at = None;
    if at == "DestinationInitiated" || at == "DestinationQueued" {
        if let Some(t) = until {
            at = "DestinationQueued";
            queued_at = Some(t * 1000);
            want.push((at, queued_at));
        } else if executed {
            at = "DestinationFinalized";
            want.push((at, None));
        }
    }
    want.push((at, queued_at));
    want.dedup();
    let mut got: Vec<Value> = r["states"].as_array().cloned().unwrap_or_default();
    got.dedup();
    let want_v: Vec<Value> = want.iter().map(|(n, t)| json!([n, t])).collect();
    if got != want_v {
        return Err(bad("C33", "progress", format!("tracking {q}: reports {got:?}, must report {want_v:?}")));
    }
    if resume {
        let home = format!("0x{}", hex(&x.source_mgr));
        let w = json!([CHAINS[a.chain], CHAINS[b.chain], "Attested", [
            {"token": format!("0x{}", hex(&x.token)), "manager": home, "transceiver": {"wormhole": if a.chain == 0 { home.clone() } else { format!("0x{}", hex(&emitter)) }}},
            bare(&contracts(b)), {"amount": x.amount.to_string(), "decimals": x.decimals}]]);
        let mut g = r["at"].clone();
        for i in 0..2 {
            g[3][i] = bare(&g[3][i]);
        }
        if g != w {
            return Err(bad("C33", "resume", format!("resuming {q}: {g}, must be {w}")));
        }
        obs.class("transfer resumed");
    }
    let dst = bare(&contracts(b));
    for (f, name, due, after) in [("complete", "redeem", at == "Attested", "DestinationInitiated"), ("finalize", "completeInboundQueuedTransfer", at == "DestinationQueued", "DestinationFinalized")] {
        if f == "complete" && auto {
            continue;
        }
        let g = &r[f];
        let ok = if due {
            let c = &g[1][0];
            let msg = if f == "complete" { &c[3][0][0]["payload"]["nttManagerPayload"] } else { &c[3][1] };
            g[0] == json!(after) && g[1].as_array().map(|v| v.len()) == Some(1) && c[0] == json!(name) && c[1] == json!(CHAINS[b.chain]) && bare(&c[2]) == dst
                && msg["id"] == json!(hex(&x.id)) && (f == "complete" && c[3][1] == json!(signer) || f == "finalize" && c[3][0] == json!(CHAINS[a.chain]) && c[3][2] == json!(signer))
        } else {
            g[1] == json!([]) && (g[0] == json!("refused") || g[0] == json!(at))
        };
        if !ok {
            return Err(bad("C33", f, format!("{f} after tracking {q} to {at}: {g}")));
        }
        if due {
            obs.class(if f == "complete" { "transfer completed by route" } else { "queued transfer finalized by route" });
        }
    }
    obs.class("transfer tracked");
    Ok(())
}
