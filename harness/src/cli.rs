//! The command line tool: its deployment file, its reports and its transactions against modelled deployments.
use crate::client::hex;
use crate::engine::{Fail, Obs, Src};
use crate::evm::{addr, checksummed, padded};
use crate::sdk::{bad, call};
use serde_json::{json, Map, Value};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

pub type B32 = [u8; 32];
pub const NAMES: [&str; 8] = ["Solana", "Ethereum", "Bsc", "Arbitrum", "Base", "Avalanche", "Sepolia", "OptimismSepolia"];
pub const FILE: &str = "/work/deployment.json";

pub fn tool(q: &Value, obs: &mut Obs) -> Option<Result<Value, String>> {
    if !crate::client::script().with_file_name("cli.js").exists() {
        panic!("the command line tool could not be bundled");
    }
    call("cli", q, obs)
}

#[derive(Clone)]
pub struct Dep {
    pub version: String,
    pub mode: &'static str,
    pub paused: bool,
    pub owner: B32,
    pub pauser: Option<B32>,
    pub manager: B32,
    pub token: B32,
    pub threshold: u64,
    pub wormhole: B32,
    pub xpauser: Option<B32>,
    pub decimals: u8,
    pub outbound: u128,
    pub peers: BTreeMap<String, (B32, u8, u128)>,
    pub xpeers: BTreeMap<String, B32>,
    pub evm: BTreeSet<String>,
    pub std: BTreeSet<String>,
    pub special: BTreeSet<String>,
    pub registered: bool,
    pub lut: bool,
}
pub type World = BTreeMap<String, Dep>;
type Op = Vec<Value>;

pub fn solana(c: &str) -> bool {
    c == "Solana"
}
pub fn text(c: &str, a: &B32) -> String {
    if solana(c) {
        Pubkey::new_from_array(*a).to_string()
    } else {
        checksummed(a[12..].try_into().unwrap())
    }
}
pub fn native(s: &mut Src, c: &str) -> B32 {
    if solana(c) {
        let mut b = s.bytes32();
        b[0] |= 1;
        b
    } else {
        padded(&addr(s))
    }
}
/// a number of base units, written with exactly the token's decimals
fn fmt(n: u128, d: u8) -> String {
    let s = format!("{n:0>w$}", w = d as usize + 1);
    let k = s.len() - d as usize;
    format!("{}.{}", &s[..k], &s[k..])
}
fn amount(s: &mut Src) -> u128 {
    match s.below(8) {
        0 => 0,
        1 => s.below(10) as u128,
        2 => 10u128.pow(s.below(30) as u32),
        3 => 10u128.pow(s.below(30) as u32) - 1,
        4 => s.mag64() as u128 * 1_000_000_000_000,
        _ => s.mag64() as u128,
    }
}
/// what the contracts on `c` are configured as, seen among `names`
pub fn remote(w: &World, c: &str, names: &[String]) -> Value {
    let d = &w[c];
    let inbound: Map<String, Value> = names.iter().filter(|n| *n != c).map(|n| (n.clone(), json!(fmt(d.peers.get(n).map(|p| p.2).unwrap_or(0), d.decimals)))).collect();
    let mut wh = json!({"address": text(c, &d.wormhole)});
    if let Some(p) = &d.xpauser {
        wh["pauser"] = json!(text(c, p));
    }
    let mut v = json!({
        "version": d.version, "mode": d.mode, "paused": d.paused, "owner": text(c, &d.owner), "manager": text(c, &d.manager), "token": text(c, &d.token),
        "transceivers": {"threshold": d.threshold, "wormhole": wh}, "limits": {"outbound": fmt(d.outbound, d.decimals), "inbound": inbound},
    });
    if let Some(p) = &d.pauser {
        v["pauser"] = json!(text(c, p));
    }
    v
}
pub fn world_json(w: &World, network: &str) -> Value {
    let h = |o: &Option<B32>| o.as_ref().map(|b| hex(b));
    let chains: Map<String, Value> = w
        .iter()
        .map(|(c, d)| {
            let peers: Map<String, Value> = d.peers.iter().map(|(k, p)| (k.clone(), json!([hex(&p.0), p.1, p.2.to_string()]))).collect();
            let xpeers: Map<String, Value> = d.xpeers.iter().map(|(k, p)| (k.clone(), json!(hex(p)))).collect();
            (
                c.clone(),
                json!({"version": d.version, "mode": d.mode, "paused": d.paused, "owner": hex(&d.owner), "pauser": h(&d.pauser), "manager": hex(&d.manager), "token": text(c, &d.token),
                    "threshold": d.threshold, "wormhole": text(c, &d.wormhole), "xpauser": h(&d.xpauser), "decimals": d.decimals, "outbound": d.outbound.to_string(), "peers": peers, "xpeers": xpeers,
                    "evm": d.evm, "std": d.std, "special": d.special, "registered": d.registered, "lut": d.lut}),
            )
        })
        .collect();
    json!({"network": network, "chains": chains})
}
/// the order in which flags were set does not matter
pub fn normal(mut w: Value) -> Value {
    for d in w["chains"].as_object_mut().into_iter().flat_map(|m| m.values_mut()) {
        for k in ["evm", "std", "special"] {
            if let Some(a) = d[k].as_array_mut() {
                a.sort_by_key(|x| x.to_string());
            }
        }
    }
    w
}
fn number(v: &str) -> u128 {
    v.replace('.', "").parse().unwrap_or(0)
}
fn well_formed(v: &Value, d: u8) -> bool {
    let p: Vec<&str> = v.as_str().unwrap_or_default().split('.').collect();
    p.len() == 2 && p[1].len() == d as usize
}
fn config_ok(w: &World, file: &Value, names: &[String]) -> bool {
    names.iter().all(|c| {
        let l = &file["chains"][c]["limits"];
        well_formed(&l["outbound"], w[c].decimals) && l["inbound"].as_object().unwrap().values().all(|x| well_formed(x, w[c].decimals))
    })
}
/// the registrations that are missing: (chain, operation, line of the report)
fn missing(w: &World, file: &Value, names: &[String]) -> Vec<(String, Op, String)> {
    let mut v = vec![];
    for c in names {
        let d = &w[c];
        let mut add = |o: Op, l: String| v.push((c.clone(), o, l));
        if solana(c) {
            if !d.registered {
                add(vec![json!(c), json!("register"), json!(hex(&d.owner))], "Missing Solana wormhole transceiver".into());
            }
            if !d.lut {
                add(vec![json!(c), json!("lut")], "Missing or outdated LUT".into());
            }
        }
        for t in names.iter().filter(|t| *t != c) {
            let to = &w[t];
            if !d.peers.contains_key(t) {
                let l = file["chains"][c]["limits"]["inbound"][t].as_str().map(number).unwrap_or(0);
                add(vec![json!(c), json!("peer"), json!(t), json!(hex(&to.manager)), json!(to.decimals), json!(l.to_string())], format!("Missing manager peer: {t}"));
            }
            if !d.xpeers.contains_key(t) {
                add(vec![json!(c), json!("xpeer"), json!(t), json!(hex(&to.wormhole))], format!("Missing transceiver peer: {t}"));
            }
            if !solana(c) {
                if solana(t) {
                    if !d.special.contains(t) {
                        add(vec![json!(c), json!("special"), json!(t), json!(true)], format!("No special relaying to {t}"));
                    }
                } else {
                    if !d.evm.contains(t) {
                        add(vec![json!(c), json!("evm"), json!(t), json!(true)], format!("{t} needs to be configured as an EVM chain"));
                    }
                    if !d.std.contains(t) {
                        add(vec![json!(c), json!("std"), json!(t), json!(true)], format!("No standard relaying to {t}"));
                    }
                }
            }
        }
    }
    v
}
fn mismatches(w: &World, names: &[String]) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for c in names {
        for t in names.iter().filter(|t| *t != c) {
            if let Some(p) = w[c].peers.get(t) {
                if p.0 != w[t].manager {
                    v.insert(format!("Peer address mismatch for {c} -> {t}"));
                }
                if p.1 != w[t].decimals {
                    v.insert(format!("Peer decimals mismatch for {c} -> {t}"));
                }
            }
            if w[c].xpeers.get(t).is_some_and(|p| *p != w[t].wormhole) {
                v.insert(format!("Transceiver peer address mismatch for {c} -> {t}"));
            }
        }
    }
    v
}
/// settings to change so that the contracts agree with the file; None when the file asks for what cannot be changed
fn settings(w: &World, c: &str, local: &Value, now: &Value) -> Option<Vec<Op>> {
    let d = &w[c];
    let back = |v: &Value| -> String {
        let t = v.as_str().unwrap();
        if solana(c) {
            hex(t.parse::<Pubkey>().unwrap().as_ref())
        } else {
            format!("{:0>64}", t[2..].to_lowercase())
        }
    };
    let mut ops = vec![];
    let mut op = |o: &[Value]| ops.push([&[json!(c)], o].concat());
    for k in ["version", "mode", "manager", "token", "note"] {
        if local[k] != now[k] {
            return None;
        }
    }
    if local["transceivers"]["threshold"] != now["transceivers"]["threshold"] || local["transceivers"]["wormhole"]["address"] != now["transceivers"]["wormhole"]["address"] {
        return None;
    }
    if local["paused"] != now["paused"] {
        op(&[json!(if d.paused { "unpause" } else { "pause" })]);
    }
    if local["owner"] != now["owner"] {
        op(&[json!("owner"), json!(back(&local["owner"]))]);
    }
    if local["pauser"] != now["pauser"] {
        op(&[json!("pauser"), json!(back(&local["pauser"]))]);
    }
    let (lx, nx) = (&local["transceivers"]["wormhole"]["pauser"], &now["transceivers"]["wormhole"]["pauser"]);
    if lx != nx {
        op(&[json!("xpauser"), json!(back(lx))]);
    }
    let (ll, nl) = (&local["limits"], &now["limits"]);
    if ll["outbound"] != nl["outbound"] {
        op(&[json!("outbound"), json!(number(ll["outbound"].as_str().unwrap()).to_string())]);
    }
    for (t, v) in ll["inbound"].as_object().unwrap() {
        if *v != nl["inbound"][t] {
            op(&[json!("inbound"), json!(t), json!(number(v.as_str().unwrap()).to_string())]);
        }
    }
    Some(ops)
}
fn apply(w: &mut World, o: &Op) {
    let d = w.get_mut(o[0].as_str().unwrap()).unwrap();
    let st = |i: usize| o[i].as_str().unwrap().to_string();
    let key = |i: usize| -> B32 { crate::client::unhex(o[i].as_str().unwrap()).try_into().unwrap() };
    match o[1].as_str().unwrap() {
        "register" => d.registered = true,
        "lut" => d.lut = true,
        "peer" => {
            d.peers.insert(st(2), (key(3), o[4].as_u64().unwrap() as u8, st(5).parse().unwrap()));
        }
        "xpeer" => {
            d.xpeers.insert(st(2), key(3));
        }
        "evm" => {
            d.evm.insert(st(2));
        }
        "std" => {
            d.std.insert(st(2));
        }
        "special" => {
            d.special.insert(st(2));
        }
        "pause" => d.paused = true,
        "unpause" => d.paused = false,
        "owner" => d.owner = key(2),
        "pauser" => d.pauser = Some(key(2)),
        "xpauser" => d.xpauser = Some(key(2)),
        "outbound" => d.outbound = st(2).parse().unwrap(),
        "inbound" => d.peers.get_mut(&st(2)).unwrap().2 = st(3).parse().unwrap(),
        x => panic!("{x}"),
    }
}
pub fn world(s: &mut Src) -> World {
    let n = 1 + s.below(4) as usize;
    let mut names: Vec<&str> = vec![];
    while names.len() < n {
        let c = if names.is_empty() { *s.pick(&["Solana", "Bsc", "Base"]) } else { NAMES[s.idx(8)] };
        if names.contains(&c) {
            break;
        }
        names.push(c);
    }
    let mut w: World = names
        .iter()
        .map(|c| {
            let opt = |s: &mut Src| if s.chance(1, 3) { Some(native(s, c)) } else { None };
            let (pauser, xpauser) = (opt(s), opt(s));
            (
                c.to_string(),
                Dep {
                    version: s.pick(&["1.1.0", "2.0.0", "3.0.0"]).to_string(),
                    mode: *s.pick(&["locking", "burning"]),
                    paused: s.chance(1, 4),
                    owner: native(s, c),
                    pauser,
                    manager: native(s, c),
                    token: native(s, c),
                    threshold: s.range(1, 3),
                    wormhole: native(s, c),
                    xpauser,
                    decimals: *s.pick(&[9u8, 18, 6, 8, 0, 1, 2]),
                    outbound: amount(s),
                    peers: BTreeMap::new(),
                    xpeers: BTreeMap::new(),
                    evm: BTreeSet::new(),
                    std: BTreeSet::new(),
                    special: BTreeSet::new(),
                    registered: s.chance(3, 4),
                    lut: s.chance(3, 4),
                },
            )
        })
        .collect();
    let facts: Vec<(String, B32, u8, B32)> = w.iter().map(|(c, d)| (c.clone(), d.manager, d.decimals, d.wormhole)).collect();
    // mostly complete deployments: few things are missing, so that each one is seen alone
    let full = s.chance(1, 2);
    for (c, d) in w.iter_mut() {
        for (t, m, dec, x) in facts.iter().filter(|f| f.0 != *c) {
            let mut have = |s: &mut Src| full || s.chance(2, 3);
            if have(s) {
                let other = s.chance(1, 16);
                d.peers.insert(t.clone(), (if other { native(s, t) } else { *m }, if s.chance(1, 16) { dec ^ 1 } else { *dec }, amount(s)));
            }
            if have(s) {
                let other = s.chance(1, 16);
                d.xpeers.insert(t.clone(), if other { native(s, t) } else { *x });
            }
            if !solana(c) && solana(t) && have(s) {
                d.special.insert(t.clone());
            }
            if !solana(c) && !solana(t) {
                if have(s) {
                    d.evm.insert(t.clone());
                }
                if have(s) {
                    d.std.insert(t.clone());
                }
            }
        }
    }
    w
}
/// changes to the deployment file someone might make
fn edit(s: &mut Src, w: &World, c: &str, l: &mut Value, names: &[String], push: bool) {
    let d = &w[c];
    let other: Option<String> = names.iter().find(|n| *n != c).cloned();
    match s.weighted(&[3, 3, 4, 4, 2, 2, 1, 1, 1, 1]) {
        0 => l["paused"] = json!(!d.paused),
        1 => l["owner"] = json!(text(c, &native(s, c))),
        2 => l["limits"]["outbound"] = json!(fmt(amount(s), d.decimals)),
        3 => {
            for t in names.iter().filter(|n| *n != c) {
                if s.bool() {
                    l["limits"]["inbound"][t] = json!(fmt(amount(s), d.decimals));
                }
            }
        }
        4 => l["pauser"] = json!(text(c, &native(s, c))),
        5 => l["transceivers"]["wormhole"]["pauser"] = json!(text(c, &native(s, c))),
        // a limit that is not written with the token's decimals
        6 => {
            let (a, b) = (s.below(1000), s.below(1000));
            let v = match s.below(5) {
                0 => format!("{a}"),
                4 => format!("{a}.{}.{b}", "0".repeat(d.decimals as usize)),
                1 => format!("{a}.{b:0>w$}", w = d.decimals as usize + 1),
                2 => format!("{a}.{b}.{}", "0".repeat(d.decimals as usize)),
                _ => format!("{a}.{}", "0".repeat((d.decimals as usize).saturating_sub(1))),
            };
            match (&other, s.bool()) {
                (Some(t), true) => l["limits"]["inbound"][t] = json!(v),
                _ => l["limits"]["outbound"] = json!(v),
            }
        }
        7 => {
            if let Some(t) = &other {
                l["limits"]["inbound"].as_object_mut().unwrap().remove(t);
            }
        }
        8 => match s.below(5) {
            0 => l["mode"] = json!(if d.mode == "locking" { "burning" } else { "locking" }),
            1 => l["token"] = json!(text(c, &native(s, c))),
            2 => l["transceivers"]["threshold"] = json!(d.threshold + 1),
            3 => l["note"] = json!("mine"),
            _ => l["transceivers"]["wormhole"]["address"] = json!(text(c, &native(s, c))),
        },
        _ if !push => l["version"] = json!("0.9.0"),
        _ => {}
    }
}

pub fn parse(v: &Value) -> Value {
    serde_json::from_str(v.as_str().unwrap_or("null")).unwrap_or(Value::Null)
}
pub fn strings(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or_default().to_string()).collect()).unwrap_or_default()
}

pub fn deployment(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    s.begin();
    let network = *s.pick(&["Testnet", "Mainnet"]);
    let mut w = world(s);
    let all: Vec<String> = w.keys().cloned().collect();
    let mut plan: Vec<&str> = vec![];
    let cloned = s.chance(1, 6);
    if cloned {
        plan.push("clone");
    } else {
        for _ in 0..1 + s.below(3) {
            plan.push(["pull", "status", "push", "push"][s.idx(4)]);
        }
        if plan.contains(&"push") {
            plan.push("status");
        }
    }
    let push = plan.contains(&"push");
    // the deployment file: some or all of the chains
    let names: Vec<String> = all.iter().filter(|_| s.chance(7, 8)).cloned().collect();
    let mut file = json!({"network": network, "chains": {}});
    for c in &names {
        file["chains"][c] = remote(&w, c, &names);
    }
    for c in &names {
        if s.chance(1, 2) {
            for _ in 0..1 + s.below(2) {
                let mut l = file["chains"][c].clone();
                edit(s, &w, c, &mut l, &names, push);
                file["chains"][c] = l;
            }
        }
    }
    // entries the tool has no business with
    if let (Some(c), true) = (NAMES.iter().find(|c| !names.iter().any(|n| n == *c)), s.chance(1, 8)) {
        file["chains"][*c] = json!({"mode": "burning", "limits": {"outbound": "1", "inbound": {}}});
    }
    if s.chance(1, 8) {
        file["defaultLimits"] = json!({"outbound": "7"});
    }
    let mut files = Map::new();
    for f in ["/work/evm/foundry.toml", "/work/solana/Anchor.toml"] {
        files.insert(f.into(), json!(""));
    }
    let from = s.pick(&all).clone();
    let exists = !cloned || s.chance(1, 6);
    if exists {
        files.insert(FILE.into(), json!(file.to_string()));
    }
    let flaky = if s.chance(1, 6) { Some(s.range(2, 3)) } else { None };
    let mut runs = vec![];
    for p in &plan {
        let mut args: Vec<String> = vec![p.to_string()];
        if *p == "clone" {
            args.extend([network.to_string(), from.clone(), text(&from, &w[&from].manager)]);
        }
        if s.chance(1, 8) {
            args.push("-v".into());
        }
        let yes = s.chance(1, 2);
        if yes && *p != "status" && *p != "clone" {
            args.push("--yes".into());
        }
        let fail = if *p == "push" && s.chance(1, 3) { Some(s.range(1, 8)) } else { None };
        runs.push(json!({"args": args, "answer": if s.chance(3, 4) { "y" } else { "n" }, "flaky": flaky, "fail": fail}));
        if fail.is_some() {
            runs.push(json!({"args": ["push", "--yes"], "flaky": flaky}));
        }
    }
    s.end();
    let q = json!({"world": world_json(&w, network), "files": files, "runs": runs});
    let Some(r) = tool(&q, obs) else { return Ok(()) };
    let r = match r {
        Ok(r) => r,
        Err(e) => return Err(bad("C35", "cli", format!("the tool fails: {e}"))),
    };
    for (run, g) in runs.iter().zip(r.as_array().unwrap()) {
        obs.ops += 1;
        let args = strings(&run["args"]);
        let cmd = args[0].as_str();
        let yes = args.iter().any(|a| a == "--yes");
        let agreed = yes || run["answer"] == "y";
        let err = |site: &str, m: String| Err(bad("C35", &format!("{cmd}-{site}"), format!("{args:?} (answer {}, failing transaction {}) {m}; exit {} {} said {:?} {:?}", run["answer"], run["fail"], g["exit"], g["thrown"], g["out"], g["err"])));
        let before = file.clone();
        let said: BTreeSet<String> = strings(&g["err"]).into_iter().chain(strings(&g["out"])).flat_map(|l| l.lines().map(|x| x.trim().to_string()).collect::<Vec<_>>()).collect();
        let now = |w: &World| -> BTreeMap<String, Value> { names.iter().map(|c| (c.clone(), remote(w, c, &names))).collect() };
        let mut exit = 0;
        let mut want: Vec<Op> = vec![];
        let mut after = w.clone();
        match cmd {
            "clone" => {
                let mut seen: Vec<String> = vec![from.clone()];
                let mut possible = true;
                for (t, p) in &w[&from].peers {
                    seen.push(t.clone());
                    possible &= p.0 == w[t].manager;
                }
                if exists || !possible {
                    exit = 1;
                    obs.class(if exists { "existing deployment file kept" } else { "clone of a broken registration fails" });
                } else {
                    seen.sort();
                    file = json!({"network": network, "chains": {}});
                    for c in &seen {
                        file["chains"][c] = remote(&w, c, &seen);
                    }
                    obs.class("deployment cloned");
                }
                if !exists && !possible {
                    if g["files"].get(FILE).is_some() {
                        return err("file", "wrote a file although it failed".into());
                    }
                    continue;
                }
            }
            "pull" => {
                let now = now(&w);
                let changed = now.iter().any(|(c, v)| *v != file["chains"][c]);
                if changed && agreed {
                    for (c, v) in now {
                        file["chains"][c] = v;
                    }
                    obs.class("configuration pulled");
                } else if changed {
                    obs.class("pull declined");
                } else {
                    obs.class("nothing to pull");
                }
            }
            "status" => {
                if !config_ok(&w, &file, &names) {
                    exit = 1;
                    obs.class("malformed limit reported");
                } else {
                    let m = missing(&w, &file, &names);
                    exit = (!m.is_empty() || now(&w).iter().any(|(c, v)| *v != file["chains"][c])) as u64;
                    obs.class(if exit == 0 { "up to date" } else { "difference reported" });
                    // the report names what is missing, chain by chain
                    let mut at = String::new();
                    let mut got = vec![];
                    for l in strings(&g["err"]) {
                        if let Some(c) = l.strip_suffix(" status:") {
                            at = c.to_string();
                        } else if l.starts_with("  ") && !at.is_empty() {
                            got.push((at.clone(), l.trim().to_string()));
                        }
                    }
                    got.sort();
                    let mut expect: Vec<(String, String)> = m.into_iter().map(|x| (x.0, x.2)).collect();
                    expect.sort();
                    if got != expect {
                        return err("missing", format!("reports missing {got:?}, really missing {expect:?}"));
                    }
                    if !expect.is_empty() {
                        obs.class("missing registration reported");
                    }
                    for l in mismatches(&w, &names) {
                        obs.class("wrong registration reported");
                        if !said.contains(&l) {
                            return err("mismatch", format!("does not report: {l}"));
                        }
                    }
                }
            }
            _ => {
                if !config_ok(&w, &file, &names) {
                    exit = 1;
                    obs.class("malformed limit not pushed");
                } else {
                    for (_, o, _) in missing(&w, &file, &names) {
                        apply(&mut after, &o);
                        want.push(o);
                    }
                    let order: Vec<String> = file["chains"].as_object().unwrap().keys().filter(|c| names.contains(c)).cloned().collect();
                    let seen = now(&after);
                    for c in order {
                        if file["chains"][&c] == seen[&c] {
                            continue;
                        }
                        if !agreed {
                            obs.class("push declined");
                            break;
                        }
                        match settings(&after, &c, &file["chains"][&c], &seen[&c]) {
                            None => {
                                exit = 1;
                                obs.class("change that cannot be pushed refused");
                                break;
                            }
                            Some(os) => {
                                for o in os {
                                    apply(&mut after, &o);
                                    want.push(o);
                                }
                            }
                        }
                    }
                    if want.is_empty() && exit == 0 {
                        obs.class("nothing to push");
                    } else {
                        obs.class("configuration pushed");
                    }
                }
            }
        }
        let ops: Vec<Op> = g["ops"].as_array().unwrap().iter().map(|o| o.as_array().unwrap().clone()).collect();
        for o in &ops {
            if o.last().unwrap() != "" {
                return err("payer", format!("{o:?} is not paid by its signer"));
            }
        }
        let ops: Vec<Op> = ops.into_iter().map(|o| o[..o.len() - 1].to_vec()).collect();
        // nothing follows the hand-over of ownership on a chain
        for (i, o) in ops.iter().enumerate() {
            if o[1] == "owner" && ops[i + 1..].iter().any(|p| p[0] == o[0]) {
                return err("owner", format!("sends {ops:?}: ownership is not handed over last"));
            }
        }
        let key = |o: &Op| json!(o).to_string();
        let count = |v: &[Op]| {
            let mut m: BTreeMap<String, i64> = BTreeMap::new();
            for o in v {
                *m.entry(key(o)).or_default() += 1;
            }
            m
        };
        let (did, must) = (count(&ops), count(&want));
        let broken = cmd == "push" && run["fail"].as_u64().is_some_and(|k| k as usize <= want.len());
        if broken {
            obs.class("push interrupted");
            if let Some(o) = did.iter().find(|(o, n)| **n > must.get(*o).copied().unwrap_or(0)) {
                return err("extra", format!("sends {o:?}, needed are only {want:?}"));
            }
            after = w.clone();
            for o in &ops {
                apply(&mut after, o);
            }
        } else {
            if did != must {
                return err("transactions", format!("sends {ops:?}, needed are {want:?}"));
            }
            if g["exit"] != json!(exit) {
                return err("exit", format!("must exit {exit}"));
            }
        }
        w = after;
        let (got, must) = (normal(g["world"].clone()), normal(world_json(&w, network)));
        if got != must {
            return err("state", format!("leaves {got}, must leave {must}"));
        }
        let (got, exists) = (parse(&g["files"][FILE]), exists || cloned);
        if exists && got != file {
            return err("file", format!("leaves the file as {got}, must be {file} (was {before})"));
        }
        if cmd == "status" || cmd == "pull" || cmd == "clone" {
            if let Some(x) = strings(&g["touched"]).first() {
                return err("shell", format!("runs {x}"));
            }
        }
    }
    Ok(())
}

/// settings of the tool, new deployment files, and chains that may not be added
pub fn settings_file(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    const CH: [&str; 4] = ["Bsc", "Solana", "Base", "BaseSepolia"];
    s.begin();
    let key = "scan_api_key";
    let mut store: [BTreeMap<&str, String>; 2] = Default::default(); // global, local
    let mut files = Map::new();
    for f in ["/work/evm/foundry.toml", "/work/solana/Anchor.toml"] {
        files.insert(f.into(), json!(""));
    }
    let network = *s.pick(&["Testnet", "Mainnet"]);
    let have: Vec<&str> = NAMES.iter().copied().filter(|_| s.chance(1, 4)).collect();
    let locked = s.chance(1, 2);
    let chains: Map<String, Value> = have.iter().enumerate().map(|(i, c)| (c.to_string(), json!({"mode": if i == 0 && locked { "locking" } else { "burning" }}))).collect();
    let file = json!({"network": network, "chains": chains});
    files.insert(FILE.into(), json!(file.to_string()));
    enum Want {
        Exit(u64),
        Value(Option<String>),
        Setting(Option<String>),
        Refused,
        Deployed,
        Created(&'static str),
    }
    let mut runs = vec![];
    let mut want = vec![];
    let mut n = 0;
    let mut created: BTreeSet<String> = BTreeSet::new();
    while n < 16 && s.more(8) {
        s.begin();
        n += 1;
        let c = *s.pick(&CH);
        let (flags, scope): (&[&str], Option<usize>) = *s.pick(&[(&[][..], Some(0)), (&["--global"][..], Some(0)), (&["--local"][..], Some(1)), (&["--local", "--no-global"][..], Some(1)), (&["--local", "--global"][..], None)]);
        let words = |f: &[&str]| -> Value { json!(["config"].iter().chain(f).chain(flags).collect::<Vec<_>>()) };
        match s.weighted(&[4, 2, 4, 4, 3, 1]) {
            0 => {
                let v = s.pick(&["abc", "x y", "0", "{\"a\"}", "ABC", "very-long-key-0123456789"]).to_string();
                runs.push(json!({"args": words(&["set-chain", c, key, &v])}));
                want.push(Want::Exit(scope.is_none() as u64));
                if let Some(i) = scope {
                    store[i].insert(c, v);
                }
            }
            1 => {
                runs.push(json!({"args": words(&["unset-chain", c, key])}));
                want.push(Want::Exit(scope.is_none() as u64));
                if let Some(i) = scope {
                    store[i].remove(c);
                }
            }
            2 => {
                runs.push(json!({"args": words(&["get-chain", c, key])}));
                want.push(match scope {
                    Some(i) => Want::Value(store[i].get(c).cloned()),
                    None => Want::Exit(1),
                });
            }
            3 => {
                // the environment, then the project, then the user
                let env = if s.chance(1, 3) { Some("from-env") } else { None };
                let e = match env {
                    Some(v) => json!({format!("{}_SCAN_API_KEY", c.to_uppercase()): v}),
                    None => json!({"OTHER_SCAN_API_KEY": "z"}),
                };
                runs.push(json!({"args": ["status"], "get": [c, key], "env": e}));
                want.push(Want::Setting(env.map(|x| x.to_string()).or(store[1].get(c).cloned()).or(store[0].get(c).cloned())));
            }
            4 => {
                let c = *s.pick(&["Solana", "Ethereum", "Bsc", "Arbitrum", "Base", "Avalanche", "Sepolia", "ArbitrumSepolia", "BaseSepolia"]);
                let mode = *s.pick(&[Some("locking"), Some("burning"), Some("burning"), None]);
                let token = s.chance(5, 6);
                let mut a = vec!["add-chain", c, "--ver", "1.0.0"];
                if let Some(m) = mode {
                    a.extend(["--mode", m]);
                }
                if token {
                    a.extend(["--token", "0x01"]);
                }
                runs.push(json!({"args": a}));
                let lock = locked && !have.is_empty();
                let old = network == "Testnet" && ["Ethereum", "Arbitrum", "Base"].contains(&c);
                want.push(if have.contains(&c) || old || (lock && mode == Some("locking")) || (!lock && mode.is_none()) || !token { Want::Refused } else { Want::Deployed });
            }
            _ => {
                let net = *s.pick(&["Testnet", "Mainnet", "Devnet"]);
                let p = s.pick(&["deployment.json", "other.json"]).to_string();
                let fresh = p != "deployment.json" && created.insert(p.clone());
                runs.push(json!({"args": ["init", net, "--path", p]}));
                want.push(if fresh { Want::Created(net) } else { Want::Exit(1) });
            }
        }
        s.end();
    }
    s.end();
    let Some(r) = tool(&json!({"world": {"network": network, "chains": {}}, "files": files, "runs": runs}), obs) else { return Ok(()) };
    let r = match r {
        Ok(r) => r,
        Err(e) => return Err(bad("C35", "cli", format!("the tool fails: {e}"))),
    };
    for (i, g) in r.as_array().unwrap().iter().enumerate() {
        obs.ops += 1;
        let (out, log) = (strings(&g["out"]), strings(&g["err"]));
        let err = |site: &str, m: String| Err(bad("C35", site, format!("{} {m}; exit {} {} said {out:?} {log:?}, after {:?}", runs[i], g["exit"], g["thrown"], &runs[..i])));
        let exit = g["exit"].as_u64().unwrap_or(0);
        if parse(&g["files"][FILE]) != file {
            return err("config-file", format!("changes the deployment file to {}", g["files"][FILE]));
        }
        match &want[i] {
            Want::Exit(e) => {
                obs.class(if *e == 0 { "setting stored" } else { "wrong use refused" });
                if exit != *e {
                    return err("config-exit", format!("must exit {e}"));
                }
            }
            Want::Value(v) => {
                obs.class("setting read");
                if out != v.iter().cloned().collect::<Vec<_>>() || exit != 0 {
                    return err("config-get", format!("must print {v:?}"));
                }
            }
            Want::Setting(v) => {
                obs.class("setting in force read");
                if g["value"] != json!(v) {
                    return err("config-precedence", format!("finds {}, must find {v:?}", g["value"]));
                }
            }
            Want::Refused => {
                obs.class("chain not added");
                if exit != 1 || g["touched"] != json!([]) {
                    return err("add-chain", format!("must be refused, with nothing run ({})", g["touched"]));
                }
            }
            Want::Deployed => {
                obs.class("chain deployment started");
                if g["touched"] == json!([]) {
                    return err("add-chain", "must be deployed".into());
                }
            }
            Want::Created(net) => {
                obs.class("deployment file created");
                if exit != 0 || parse(&g["files"]["/work/other.json"]) != json!({"network": net, "chains": {}}) {
                    return err("init", format!("writes {}", g["files"]["/work/other.json"]));
                }
            }
        }
    }
    Ok(())
}
