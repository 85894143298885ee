//! The repository's TypeScript clients, run by node: what they build is executed, what they read is compared.
use crate::engine::{Fail, Obs};
use crate::layout::*;
use crate::model::*;
use crate::programs as P;
use crate::svm::Svm;
use crate::world::{Mods, World};
use serde_json::{json, Value};
use solana_sdk::{
    hash::{hash, hashv},
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};
use std::{
    cell::RefCell,
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, Command, Stdio},
    sync::mpsc::{channel, Receiver},
    time::Duration,
};

struct Node {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! { static NODE: RefCell<Option<Node>> = const { RefCell::new(None) }; }

pub enum No {
    /// the client refuses
    Err(String),
    /// the stand-ins for the client's libraries lack something, so nothing can be said
    Missing(String),
}

pub fn script() -> std::path::PathBuf {
    std::path::Path::new(&std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("target/client.js")
}
fn start() -> Node {
    let js = script();
    if !js.exists() {
        panic!("the TypeScript clients could not be bundled: {} is missing", js.display());
    }
    let mut child = Command::new("node")
        .arg("--stack-size=4000")
        .arg(js)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("node");
    let to = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, from) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Node { child, to, from }
}
fn exchange(n: &mut Node, q: &Value) -> Option<Value> {
    writeln!(n.to, "{q}").ok()?;
    n.to.flush().ok()?;
    let l = n.from.recv_timeout(Duration::from_secs(60)).ok()?;
    serde_json::from_str(&l).ok()
}

/// one request; an answer that does not come is a refusal
pub fn ask(q: &Value) -> Result<Value, No> {
    NODE.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let mut n = start();
            let hello = json!({"f": "hello", "ntt": hex(P::ntt().as_ref()), "standalone": hex(P::standalone().as_ref()), "quoter": hex(P::quoter().as_ref()), "core": hex(P::core_bridge_id().as_ref())});
            if exchange(&mut n, &hello).is_none() {
                panic!("the TypeScript clients do not start");
            }
            *c = Some(n);
        }
        match exchange(c.as_mut().unwrap(), q) {
            None => {
                *c = None;
                Err(No::Err("no answer".into()))
            }
            Some(v) => match v.get("err") {
                Some(e) => {
                    let e = e.as_str().unwrap_or_default().to_string();
                    if v.get("missing").is_some() {
                        Err(No::Missing(e))
                    } else {
                        Err(No::Err(e))
                    }
                }
                None => Ok(v),
            },
        }
    })
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
pub fn k(p: &Pubkey) -> String {
    hex(p.as_ref())
}
pub fn accounts(svm: &Svm) -> Value {
    let mut m = serde_json::Map::new();
    for (key, a) in &svm.db {
        if a.executable || a.data.is_empty() || a.owner == P::core_bridge_id() || a.owner == system_program::id() || a.data.len() > 4000 {
            continue;
        }
        m.insert(k(key), json!([k(&a.owner), a.lamports, hex(&a.data)]));
    }
    Value::Object(m)
}

/// the transactions in an answer; None when the client says there is nothing to do
pub fn txs(v: &Value) -> Option<Vec<Vec<Instruction>>> {
    let key = |s: &Value| Pubkey::new_from_array(unhex(s.as_str().unwrap_or_default()).try_into().unwrap_or([0; 32]));
    Some(
        v["tx"]
            .as_array()?
            .iter()
            .map(|t| {
                t.as_array()
                    .unwrap()
                    .iter()
                    .map(|i| Instruction {
                        program_id: key(&i["p"]),
                        data: unhex(i["d"].as_str().unwrap_or_default()),
                        accounts: i["k"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|m| {
                                let fl = m[1].as_u64().unwrap_or(0);
                                AccountMeta { pubkey: key(&m[0]), is_signer: fl & 1 != 0, is_writable: fl & 2 != 0 }
                            })
                            .collect(),
                    })
                    .collect()
            })
            .collect(),
    )
}
/// the key pairs the stand-in for the wallet library hands out
pub fn generated_key(salt: u64, n: u64) -> Pubkey {
    Pubkey::new_from_array(hash(format!("keypair {salt} {n}").as_bytes()).to_bytes())
}
/// where the core bridge keeps the posted message with this hash
pub fn posted_vaa_key(h: &B32) -> Pubkey {
    pda(&[b"PostedVAA", h], &P::core_bridge_id())
}
pub fn vaa_hash(salt: u64, n: u64) -> B32 {
    hashv(&[b"vaa", &salt.to_le_bytes(), &n.to_le_bytes()]).to_bytes()
}

pub fn msg_json(x: &Xfer) -> Value {
    json!({"id": hex(&x.id), "sender": hex(&x.sender), "amount": x.amount.to_string(), "decimals": x.decimals, "token": hex(&x.token), "to": hex(&x.to), "toChain": x.to_chain,
        "sourceMgr": hex(&x.source_mgr), "recipientMgr": hex(&x.recipient_mgr)})
}

const MODES: [&str; 2] = ["locking", "burning"];

/// what the client made of a request
pub type Built = Option<Result<Vec<Instruction>, String>>;

impl World {
    pub fn client_request(&self, f: &str, a: Value, standalone: bool, slot: u64) -> Value {
        json!({"f": f, "a": a, "standalone": standalone, "slot": slot, "salt": self.salt, "token": k(&self.m.mint), "accts": accounts(&self.svm)})
    }
    /// one transaction as the client builds it
    pub fn client_tx(&self, f: &str, a: Value, standalone: bool, slot: u64, obs: &mut Obs) -> Result<Built, Fail> {
        match ask(&self.client_request(f, a, standalone, slot)) {
            Err(No::Missing(e)) => {
                obs.class("skip:client needs a library the stand-ins lack");
                obs.log(|| format!("{f}: {e}"));
                Ok(None)
            }
            Err(No::Err(e)) => Ok(Some(Err(e))),
            Ok(v) => match txs(&v) {
                None => Ok(Some(Err("nothing to do".into()))),
                Some(t) if t.len() == 1 => Ok(Some(Ok(t[0].clone()))),
                Some(t) => Ok(Some(Err(format!("{} transactions", t.len())))),
            },
        }
    }
    fn vaa_json(&self, chain: u16, emitter: &B32, hash: &B32, x: &Xfer) -> Value {
        json!({"chain": chain, "emitter": hex(emitter), "hash": hex(hash), "payload": hex(&x.wire(&[]))})
    }
    /// the message behind an inbox item
    fn behind(&self, item: &Pubkey) -> Option<(u16, Xfer)> {
        self.m
            .st
            .values()
            .filter_map(|s| match s {
                St::Msg(_, ch, x) => Some((*ch, x.clone())),
                _ => None,
            })
            .chain(self.m.vaas.values().filter_map(|v| v.body.clone().map(|b| (v.chain, b))))
            .find(|(ch, x)| inbox_item(&x.digest(*ch)) == *item)
    }
    /// how the client is asked for this call, if it offers it
    fn client_ask(&self, c: &Call, op: bool) -> Option<(&'static str, Value, bool, u64)> {
        let own = |p: &Pubkey| *p == P::ntt() || *p == P::standalone();
        let sa = |p: &Pubkey| *p == P::standalone();
        let r = match c {
            Call::Initialize { payer, deployer, mint, chain, limit, mode } => {
                if *mode > 1 {
                    return None;
                }
                let mode = MODES[*mode as usize];
                let a = json!({"payer": k(payer), "deployer": k(deployer), "mint": k(mint), "chain": chain, "limit": limit.to_string(), "mode": mode, "tokenProgram": k(&self.m.token_program)});
                if op && payer == deployer && *chain == 1 {
                    ("op_initialize", a, false, 0)
                } else {
                    ("initialize", a, false, 0)
                }
            }
            Call::InitLut { payer, slot } => ("initialize_lut", json!({"payer": k(payer)}), false, slot.checked_add(1).filter(|s| *s < 1 << 50)?),
            Call::Transfer { payer, from, burn, req, outbox, session } => {
                let o = self.m.tok(from)?.owner;
                if session_authority(&o, req) != *session {
                    return None;
                }
                let a = json!({"payer": k(payer), "from": k(from), "sender": k(&o), "outbox": k(outbox), "amount": req.amount.to_string(), "chain": req.chain, "to": hex(&req.to), "queue": req.queue});
                (if *burn { "transfer_burn" } else { "transfer_lock" }, a, false, 0)
            }
            Call::Redeem { payer, msg, transceiver } => match self.m.st.get(msg)? {
                St::Msg(o, ch, x) if o == transceiver && own(o) && *msg == xmsg(o, *ch, &x.id) => {
                    ("redeem", json!({"payer": k(payer), "vaa": self.vaa_json(*ch, &[0; 32], &[0; 32], x)}), sa(o), 0)
                }
                _ => return None,
            },
            Call::ReleaseIn { payer, item, mint, revert } => {
                let (ch, x) = self.behind(item)?;
                let burning = self.m.cfg()?.mode == 1;
                let mut a = json!({"payer": k(payer), "chain": ch, "msg": msg_json(&x), "revert": revert});
                if op && burning == *mint && !*revert {
                    ("op_complete", a, false, 0)
                } else {
                    if op {
                        a["recipient"] = json!(hex(&x.to));
                    }
                    (if *mint { "release_inbound_mint" } else { "release_inbound_unlock" }, a, false, 0)
                }
            }
            Call::Nominate { signer, new_owner, one_step: false } => ("op_set_owner", json!({"owner": k(signer), "newOwner": k(new_owner)}), false, 0),
            Call::SetPeer { payer, signer, chain, addr, limit, decimals } => {
                let a = json!({"payer": k(payer), "owner": k(signer), "chain": chain, "addr": hex(addr), "limit": limit.to_string(), "decimals": decimals});
                (if op && payer == signer { "op_set_peer" } else { "set_peer" }, a, false, 0)
            }
            Call::Register { payer, signer, transceiver } if own(transceiver) => {
                ("register_transceiver", json!({"payer": k(payer), "owner": k(signer)}), sa(transceiver), 0)
            }
            Call::SetOutLimit { signer, limit } => {
                (if op { "op_out_limit" } else { "set_outbound_limit" }, json!({"owner": k(signer), "limit": limit.to_string()}), false, 0)
            }
            Call::SetInLimit { signer, chain, limit } => {
                (if op { "op_in_limit" } else { "set_inbound_limit" }, json!({"owner": k(signer), "chain": chain, "limit": limit.to_string()}), false, 0)
            }
            Call::SetPaused { signer, paused } => (if op { "op_pause" } else { "set_paused" }, json!({"owner": k(signer), "paused": paused}), false, 0),
            Call::Receive { prog, payer, vaa } => {
                let v = self.m.vaas.get(vaa)?;
                let h = self.vaa_hashes.get(vaa)?;
                let x = v.body.as_ref()?;
                ("receive", json!({"payer": k(payer), "vaa": self.vaa_json(v.chain, &v.emitter, h, x)}), sa(prog), 0)
            }
            Call::ReleaseOut { prog, payer, outbox, revert } => ("release_outbound", json!({"payer": k(payer), "outbox": k(outbox), "revert": revert}), sa(prog), 0),
            Call::BroadcastId { prog, payer, msg } => ("broadcast_id", json!({"payer": k(payer), "msg": k(msg)}), sa(prog), 0),
            Call::BroadcastPeer { prog, payer, chain, msg } => ("broadcast_peer", json!({"payer": k(payer), "chain": chain, "msg": k(msg)}), sa(prog), 0),
            _ => return None,
        };
        Some(r)
    }
    pub fn client_build(&self, c: &Call, obs: &mut Obs) -> Result<Built, Fail> {
        // the client reads the manager's configuration first
        if self.m.cfg().is_none() && !matches!(c, Call::Initialize { .. }) {
            return Ok(None);
        }
        let Some((f, a, standalone, slot)) = self.client_ask(c, obs.ops % 2 == 1) else {
            return Ok(None);
        };
        if let (Call::InitLut { .. }, Some(St::Lut(table))) = (c, self.m.st.get(&lut())) {
            let mut q = self.client_request(f, a, standalone, slot);
            // sometimes the client sees a table with one of its entries missing
            let entries = match self.m.st.get(table) {
                Some(St::Table(v)) => v.clone(),
                _ => vec![],
            };
            let n = entries.len();
            let hide = obs.ops as usize % 3 != 0 && n > 0;
            if hide {
                let e = entries[(obs.ops / 3) as usize % n];
                if e == P::ntt() || system_program::id() == e {
                    return Ok(None);
                }
                let mut d = self.svm.db[table].data.clone();
                for i in (0..n).filter(|i| entries[*i] == e) {
                    d[56 + 32 * i] ^= 1;
                }
                q["accts"][k(table)][2] = json!(hex(&d));
            }
            let Some(b) = one(&q, obs) else { return Ok(None) };
            return match b {
                Err(e) if !hide && e.starts_with("None") => {
                    obs.class("skip:lookup table up to date");
                    Ok(None)
                }
                b => {
                    obs.class("built by the client");
                    obs.class("lookup table updated by the client");
                    obs.log(|| format!("client: {f}, an entry hidden: {hide}"));
                    Ok(Some(b))
                }
            };
        }
        let b = self.client_tx(f, a, standalone, slot, obs)?;
        if b.is_some() {
            obs.class("built by the client");
            obs.log(|| format!("client: {f}"));
        }
        Ok(b)
    }

    // ---- whole operations ----

    /// `relay`: the drop-off of the relay requested along with the transfer
    pub fn client_transfer(&mut self, sender: Pubkey, req: Req, standalone: bool, relay: Option<u64>, obs: &mut Obs) -> Result<Option<Vec<Did>>, Fail> {
        let from = ata(&sender, &self.m.mint, &self.m.token_program);
        let outbox = self.fresh();
        let session = session_authority(&sender, &req);
        let burn = self.m.cfg().unwrap().mode == 1;
        let prog = if standalone { P::standalone() } else { P::ntt() };
        let a = json!({"sender": k(&sender), "outbox": k(&outbox), "amount": req.amount.to_string(), "chain": req.chain, "to": hex(&req.to), "queue": req.queue, "automatic": relay.is_some(), "dropoff": (relay.unwrap_or(0) as u128 * 1_000_000_000).to_string()});
        let mut q = self.client_request("op_transfer", a, standalone, 0);
        if relay.is_some() {
            let idx = self.m.st.get(&registered(&prog)).and_then(|x| if let St::Reg(_, i) = x { Some(*i) } else { None }).unwrap_or(0);
            for (key, d) in crate::quoter::fixture(req.chain, idx) {
                self.svm.put(key, P::quoter(), d);
            }
            q["quoter"] = json!(true);
            q["accts"] = accounts(&self.svm);
        }
        let Some(mut b) = one(&q, obs) else { return Ok(None) };
        let mut asked: Vec<Instruction> = vec![];
        if let (Ok(v), Some(_)) = (&mut b, relay) {
            asked = v.iter().filter(|i| i.program_id == P::quoter()).cloned().collect();
            if v.last().map(|i| i.program_id == P::quoter()) != Some(true) {
                return Err(Fail { site: "client-relay:missing".into(), tags: vec!["C31"], msg: "an automatic transfer does not end in a relay request".into() });
            }
            v.retain(|i| i.program_id != P::quoter());
        }
        // whatever was approved before is gone: the operation brings its own approval
        let t = self.m.tok_mut(&from);
        t.delegate = None;
        t.delegated = 0;
        self.poke_tok(&from);
        let before = self.m.clone();
        let t = self.m.tok_mut(&from);
        if !t.frozen {
            t.delegate = Some(session);
            t.delegated = req.amount;
        }
        let approve = spl_token_2022::instruction::approve(&self.m.token_program, &from, &session, &sender, &[], req.amount).unwrap();
        let calls = vec![
            Call::Transfer { payer: sender, from, burn, req, outbox, session },
            Call::ReleaseOut { prog, payer: sender, outbox, revert: !req.queue },
        ];
        let r = self.client_exec(calls, vec![approve], b, obs).map_err(|mut f| {
            if relay.is_some() && f.tags.contains(&"C29") {
                f.tags.push("C31");
            }
            f
        });
        if !matches!(r, Ok(Some(_))) {
            self.m = before;
        }
        if let (Ok(Some(_)), Some(drop), false) = (&r, relay, asked.is_empty()) {
            // the relay request, right behind the transfer
            let mut svm = self.svm.clone();
            let msg = match svm.tx(&self.fee_payer.clone(), &asked) {
                Err(e) => Some(format!("is refused: {}", e.0)),
                Ok(_) => match crate::quoter::requested(&svm, &outbox) {
                    Some(d) if d == drop => None,
                    d => Some(format!("asks for a drop-off of {d:?}")),
                },
            };
            if let Some(m) = msg {
                return Err(Fail { site: "client-relay:request".into(), tags: vec!["C31"], msg: format!("the relay request of an automatic transfer with drop-off {drop} {m}") });
            }
            obs.class("client: relay requested with the transfer");
        }
        r
    }
    pub fn client_redeem(&mut self, payer: Pubkey, vaa: Pubkey, prog: Pubkey, obs: &mut Obs) -> Result<Option<Vec<Did>>, Fail> {
        let (Some(v), Some(h)) = (self.m.vaas.get(&vaa).cloned(), self.vaa_hashes.get(&vaa).copied()) else {
            return Ok(None);
        };
        let Some(x) = v.body else { return Ok(None) };
        let a = json!({"payer": k(&payer), "vaa": self.vaa_json(v.chain, &v.emitter, &h, &x)});
        let Some(b) = self.client_tx("op_redeem", a, prog == P::standalone(), 0, obs)? else {
            return Ok(None);
        };
        let calls = vec![
            Call::Receive { prog, payer, vaa },
            Call::Redeem { payer, msg: xmsg(&prog, v.chain, &x.id), transceiver: prog },
            Call::ReleaseIn { payer, item: inbox_item(&x.digest(v.chain)), mint: self.m.cfg().unwrap().mode == 1, revert: false },
        ];
        self.client_exec(calls, vec![], b, obs)
    }
    pub fn client_register(&mut self, payer: Pubkey, signer: Pubkey, prog: Pubkey, obs: &mut Obs) -> Result<Option<Vec<Did>>, Fail> {
        if self.m.cfg().unwrap().paused {
            // the client does not offer this while paused
            return Ok(None);
        }
        let salt = self.next_client_salt();
        let mut q = self.client_request("op_register", json!({"payer": k(&payer), "owner": k(&signer)}), prog == P::standalone(), 0);
        q["salt"] = json!(salt);
        let Some(b) = one(&q, obs) else { return Ok(None) };
        let calls = vec![Call::Register { payer, signer, transceiver: prog }, Call::BroadcastId { prog, payer, msg: generated_key(salt, 0) }];
        self.client_exec(calls, vec![], b, obs)
    }
    pub fn client_set_x_peer(&mut self, signer: Pubkey, prog: Pubkey, chain: u16, addr: B32, obs: &mut Obs) -> Result<Option<Vec<Did>>, Fail> {
        let salt = self.next_client_salt();
        let mut q = self.client_request("op_set_x_peer", json!({"owner": k(&signer), "chain": chain, "addr": hex(&addr)}), prog == P::standalone(), 0);
        q["salt"] = json!(salt);
        let Some(b) = one(&q, obs) else { return Ok(None) };
        let calls = vec![
            Call::SetXPeer { prog, payer: signer, signer, chain, addr },
            Call::BroadcastPeer { prog, payer: signer, chain, msg: generated_key(salt, 0) },
        ];
        self.client_exec(calls, vec![], b, obs)
    }
    fn next_client_salt(&mut self) -> u64 {
        self.fresh_n += 1;
        self.salt * 100_000 + self.fresh_n
    }
    fn client_exec(&mut self, calls: Vec<Call>, prefix: Vec<Instruction>, b: Result<Vec<Instruction>, String>, obs: &mut Obs) -> Result<Option<Vec<Did>>, Fail> {
        obs.class("built by the client");
        obs.class("whole operation by the client");
        let v: Vec<(Call, Mods)> = calls.into_iter().map(|c| (c, Mods::default())).collect();
        self.exec_with(&v, prefix, Some(b), obs)
    }

    // ---- reading ----

    pub fn client_read(&self, chains: &[u16], msgs: &[(u16, Xfer)], obs: &mut Obs) -> Result<(), Fail> {
        let cfg = self.m.cfg().unwrap().clone();
        let a = json!({"chains": chains, "msgs": msgs.iter().map(|(c, x)| json!({"chain": c, "msg": msg_json(x)})).collect::<Vec<_>>()});
        for standalone in [false, true] {
            let prog = if standalone { P::standalone() } else { P::ntt() };
            let mut got = match ask(&self.client_request("read", a.clone(), standalone, 0)) {
                Ok(v) => v["v"].clone(),
                Err(No::Missing(_)) => {
                    obs.class("skip:client needs a library the stand-ins lack");
                    return Ok(());
                }
                Err(No::Err(e)) => return Err(bad("read", format!("the client cannot read the manager's state: {e}"))),
            };
            let mut peers = serde_json::Map::new();
            for c in chains {
                let lim = self.m.in_rl(*c).map(|r| r.limit.to_string());
                peers.insert(
                    c.to_string(),
                    json!({
                        "peer": self.m.peer(*c).map(|p| json!([hex(&p.0), p.1, lim.clone().unwrap_or_default(), c])),
                        "xpeer": self.m.xpeer(&prog, *c).map(|x| hex(&x)),
                        "inLimit": self.m.peer(*c).and(lim),
                    }),
                );
            }
            let now = self.m.now;
            let between = |v: &Value, r: &Rl| v.as_str().and_then(|v| v.parse::<u64>().ok()).map(|v| r.cap <= v && v <= r.at(now).max(r.cap)).unwrap_or(false);
            if !between(&got["outCap"], self.m.out_rl().unwrap()) {
                return Err(bad("capacity", format!("the client reports outbound capacity {}, the limiter is {:?} at {now}", got["outCap"], self.m.out_rl())));
            }
            for c in chains {
                if let (Some(_), Some(r)) = (self.m.peer(*c), self.m.in_rl(*c)) {
                    let v = &got["peers"][c.to_string()]["inCap"];
                    if !between(v, r) {
                        return Err(bad("capacity", format!("the client reports inbound capacity {v} for {c}, the limiter is {r:?} at {now}")));
                    }
                }
            }
            if let Some(p) = got["peers"].as_object_mut() {
                for x in p.values_mut() {
                    x.as_object_mut().map(|x| x.remove("inCap"));
                }
            }
            let ms: Vec<Value> = msgs
                .iter()
                .enumerate()
                .map(|(n, (c, x))| {
                    let i = self.m.inn(&inbox_item(&x.digest(*c)));
                    // attested, but not often enough yet
                    let waiting = i.map(|i| i.status == Status::NotApproved).unwrap_or(false);
                    if waiting {
                        obs.class("transfer awaiting votes read by the client");
                    }
                    let after = match i.map(|i| i.status) {
                        Some(Status::After(t)) => Some(t),
                        _ => None,
                    };
                    json!({
                        "executed": i.map(|i| i.status) == Some(Status::Released), "approved": if waiting { got["msgs"][n]["approved"].clone() } else { json!(i.is_some()) }, "queued": after.is_some(),
                        "info": after.map(|t| json!([k(&i.unwrap().recipient), i.unwrap().amount.to_string(), t])),
                    })
                })
                .collect();
            let want = json!({
                "mode": MODES[cfg.mode as usize], "paused": cfg.paused, "threshold": cfg.threshold, "owner": k(&cfg.owner), "custody": k(&cfg.custody),
                "decimals": self.m.decimals(), "mint": k(&cfg.mint), "outLimit": self.m.out_rl().unwrap().limit.to_string(), "duration": "86400",
                "whAddress": k(&emitter(&prog)), "peers": peers, "msgs": ms,
            });
            for (f, w) in want.as_object().unwrap() {
                if got[f] != *w {
                    return Err(bad(f, format!("the client reports {f} = {}, it is {w}", got[f])));
                }
            }
            obs.class("state read by the client");
            if ms.iter().any(|m| m["queued"] == json!(true)) {
                obs.class("queued transfer read by the client");
            }
            if ms.iter().any(|m| m["executed"] == json!(true)) {
                obs.class("executed transfer read by the client");
            }
        }
        let other = self.decoy_mint;
        for (t, want) in [(cfg.mint, Value::Null), (other, json!({"token": cfg.mint.to_string()}))] {
            match ask(&self.client_request("verify", json!({"token": k(&t)}), false, 0)) {
                Err(No::Missing(_)) => {}
                Err(No::Err(e)) => return Err(bad("verify", format!("the client cannot verify its addresses: {e}"))),
                Ok(v) => {
                    if v["v"] != want {
                        return Err(bad("verify", format!("verifying the address of token {t} reports {}", v["v"])));
                    }
                }
            }
        }
        Ok(())
    }
}
fn bad(site: &str, msg: String) -> Fail {
    Fail { site: format!("client-read:{site}"), tags: vec!["C30"], msg }
}
fn one(q: &Value, obs: &mut Obs) -> Option<Result<Vec<Instruction>, String>> {
    match ask(q) {
        Err(No::Missing(_)) => {
            obs.class("skip:client needs a library the stand-ins lack");
            None
        }
        Err(No::Err(e)) => Some(Err(e)),
        Ok(v) => Some(match txs(&v) {
            Some(t) if t.len() == 1 => Ok(t[0].clone()),
            t => Err(format!("{:?} transactions", t.map(|t| t.len()))),
        }),
    }
}
