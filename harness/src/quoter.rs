//! The relay quoter: model, generator and comparison.
use crate::client as cl;
use crate::engine::{Fail, Obs, Src};
use crate::layout::*;
use crate::model::{out_bytes, OutItem};
use crate::programs as P;
use crate::svm::{rent_min, Svm};
use crate::world::{base_svm, loader_program_data};
use solana_sdk::{bpf_loader_upgradeable, hash::hashv, instruction::Instruction, pubkey::Pubkey, system_program};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Chain {
    max_drop: u64,
    base: u64,
    native: u64,
    gas: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Ntt {
    idx: u8,
    gas_cost: u32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Inst {
    owner: Pubkey,
    assistant: Pubkey,
    recipient: Pubkey,
    sol_price: u64,
}
#[derive(Clone, Debug)]
struct Item {
    program: Pubkey,
    chain: u16,
    released: u128,
}
#[derive(Clone)]
struct M {
    upgrade: Option<Pubkey>,
    inst: Option<Inst>,
    chains: BTreeMap<u16, Chain>,
    ntts: BTreeMap<Pubkey, Ntt>,
    reqs: BTreeMap<Pubkey, (u64, u64)>,
    /// lamports someone sent to the address of a request before it was made
    pre: BTreeMap<Pubkey, u64>,
    items: BTreeMap<Pubkey, Item>,
    lamports: BTreeMap<Pubkey, u64>,
}

#[derive(Clone, Debug)]
enum C {
    Init { owner: Pubkey, recipient: Pubkey },
    Assistant { owner: Pubkey, who: Option<Pubkey> },
    Recipient { owner: Pubkey, who: Pubkey },
    RegChain { auth: Pubkey, chain: u16 },
    RegNtt { auth: Pubkey, prog: Pubkey, idx: u8, gas_cost: u32 },
    DeregNtt { auth: Pubkey, prog: Pubkey },
    SolPrice { auth: Pubkey, price: u64 },
    Prices { auth: Pubkey, chain: u16, native: u64, gas: u64 },
    Params { auth: Pubkey, chain: u16, max_drop: u64, base: u64 },
    Request { payer: Pubkey, item: Pubkey, drop: u64, max_fee: u64 },
    Close { auth: Pubkey, item: Pubkey, recipient: Pubkey },
}

fn q(seeds: &[&[u8]]) -> Pubkey {
    pda(seeds, &P::quoter())
}
fn instance() -> Pubkey {
    q(&[b"instance"])
}
fn chain_key(c: u16) -> Pubkey {
    q(&[b"registered_chain", &c.to_be_bytes()])
}
fn ntt_key(p: &Pubkey) -> Pubkey {
    q(&[b"registered_ntt", p.as_ref()])
}
fn req_key(o: &Pubkey) -> Pubkey {
    q(&[b"relay_request", o.as_ref()])
}
fn muldiv(a: u64, b: u64, c: u64) -> Option<u64> {
    u64::try_from(a as u128 * b as u128 / c as u128).ok()
}
fn fee(ch: &Chain, n: &Ntt, drop: u64, sol: u64) -> Option<u64> {
    let native = drop.checked_add(muldiv(ch.gas, n.gas_cost as u64, 1_000_000_000)?)?;
    let usd = muldiv(ch.native, native, 1_000_000_000)?.checked_add(ch.base)?;
    Some(muldiv(usd, 1_000_000_000, sol)?.max(rent_min(16)))
}

type Rej = Vec<(&'static str, Vec<&'static str>)>;

impl C {
    fn name(&self) -> &'static str {
        match self {
            C::Init { .. } => "initialize",
            C::Assistant { .. } => "set_assistant",
            C::Recipient { .. } => "set_fee_recipient",
            C::RegChain { .. } => "register_chain",
            C::RegNtt { .. } => "register_ntt",
            C::DeregNtt { .. } => "deregister_ntt",
            C::SolPrice { .. } => "update_sol_price",
            C::Prices { .. } => "update_chain_prices",
            C::Params { .. } => "update_chain_params",
            C::Request { .. } => "request_relay",
            C::Close { .. } => "close_relay",
        }
    }
    fn promises(&self) -> Vec<&'static str> {
        match self {
            C::Request { .. } => vec!["C21"],
            _ => vec!["C22"],
        }
    }
}

impl M {
    /// the runtime also refuses to leave a wallet with less than its rent minimum
    fn affords(&self, k: &Pubkey, n: u64) -> bool {
        let have = *self.lamports.get(k).unwrap_or(&0);
        n <= have && (have == n || have - n >= rent_min(0))
    }
    fn pay(&mut self, k: Pubkey, n: u64) {
        *self.lamports.entry(k).or_insert(0) -= n;
    }
    fn get(&mut self, k: Pubkey, n: u64) {
        *self.lamports.entry(k).or_insert(0) += n;
    }
    fn apply(&mut self, c: &C) -> Result<(), Rej> {
        let mut rej: Rej = vec![];
        macro_rules! need {
            ($c:expr, $w:expr, $t:expr) => {
                if !$c {
                    rej.push(($w, $t.to_vec()));
                }
            };
        }
        macro_rules! stop {
            () => {
                if !rej.is_empty() {
                    return Err(rej);
                }
            };
        }
        if let C::Init { owner, recipient } = c {
            need!(self.inst.is_none(), "quoter initialized twice", ["C22"]);
            need!(self.upgrade == Some(*owner), "quoter initialized by a stranger", ["C22"]);
            need!(*recipient != Pubkey::default(), "fee recipient is the default address", ["C22"]);
            need!(self.affords(owner, rent_min(8 + 104)), "payer cannot pay", ["C22"]);
            stop!();
            self.pay(*owner, rent_min(8 + 104));
            self.inst = Some(Inst { owner: *owner, assistant: Pubkey::default(), recipient: *recipient, sol_price: 0 });
            return Ok(());
        }
        let inst = match &self.inst {
            Some(i) => i.clone(),
            None => return Err(vec![("quoter not initialized", vec!["C18", "C22"])]),
        };
        let authorized = |k: &Pubkey| *k == inst.owner || *k == inst.assistant;
        match c {
            C::Init { .. } => unreachable!(),
            C::Assistant { owner, who } => {
                need!(*owner == inst.owner, "not the quoter owner", ["C22"]);
                stop!();
                self.inst.as_mut().unwrap().assistant = who.unwrap_or_default();
            }
            C::Recipient { owner, who } => {
                need!(*owner == inst.owner, "not the quoter owner", ["C22"]);
                need!(*who != Pubkey::default(), "fee recipient is the default address", ["C22"]);
                stop!();
                self.inst.as_mut().unwrap().recipient = *who;
            }
            C::RegChain { auth, chain } => {
                need!(authorized(auth), "neither owner nor assistant", ["C22"]);
                need!(!self.chains.contains_key(chain), "chain registered twice", ["C22"]);
                need!(self.affords(auth, rent_min(8 + 33)), "payer cannot pay", ["C22"]);
                stop!();
                self.pay(*auth, rent_min(8 + 33));
                self.chains.insert(*chain, Chain { max_drop: 0, base: u64::MAX, native: 0, gas: 0 });
            }
            C::RegNtt { auth, prog, idx, gas_cost } => {
                need!(authorized(auth), "neither owner nor assistant", ["C22"]);
                need!(!self.ntts.contains_key(prog), "integration registered twice", ["C22"]);
                need!(self.affords(auth, rent_min(8 + 6)), "payer cannot pay", ["C22"]);
                stop!();
                self.pay(*auth, rent_min(8 + 6));
                self.ntts.insert(*prog, Ntt { idx: *idx, gas_cost: *gas_cost });
            }
            C::DeregNtt { auth, prog } => {
                need!(authorized(auth), "neither owner nor assistant", ["C22"]);
                need!(self.ntts.contains_key(prog), "integration not registered", ["C22"]);
                stop!();
                self.get(*auth, rent_min(8 + 6));
                self.ntts.remove(prog);
            }
            C::SolPrice { auth, price } => {
                need!(authorized(auth), "neither owner nor assistant", ["C22"]);
                need!(*price != 0, "zero price", ["C22", "C21"]);
                stop!();
                self.inst.as_mut().unwrap().sol_price = *price;
            }
            C::Prices { auth, chain, native, gas } => {
                need!(authorized(auth), "neither owner nor assistant", ["C22"]);
                need!(self.chains.contains_key(chain), "chain not registered", ["C22"]);
                stop!();
                let c = self.chains.get_mut(chain).unwrap();
                c.native = *native;
                c.gas = *gas;
            }
            C::Params { auth, chain, max_drop, base } => {
                need!(authorized(auth), "neither owner nor assistant", ["C22"]);
                need!(self.chains.contains_key(chain), "chain not registered", ["C22"]);
                stop!();
                let c = self.chains.get_mut(chain).unwrap();
                c.max_drop = *max_drop;
                c.base = *base;
            }
            C::Request { payer, item, drop, max_fee } => {
                need!(inst.sol_price != 0, "no price set", ["C21"]);
                let it = match self.items.get(item) {
                    Some(i) => i.clone(),
                    None => return Err(vec![("not a transfer", vec!["C21", "C18"])]),
                };
                let n = self.ntts.get(&it.program).copied();
                need!(n.is_some(), "integration not registered", ["C21"]);
                let ch = self.chains.get(&it.chain).copied();
                need!(ch.is_some(), "destination not registered", ["C21"]);
                need!(!self.reqs.contains_key(item), "requested twice", ["C21"]);
                if let Some(n) = n {
                    need!(n.idx < 128 && it.released >> n.idx & 1 == 1, "transfer not published", ["C21"]);
                }
                if let Some(ch) = ch {
                    need!(ch.base != u64::MAX, "destination disabled", ["C21", "C22"]);
                    need!(*drop <= ch.max_drop, "drop-off too large", ["C21"]);
                }
                if let (Some(n), Some(ch), true) = (n, ch, inst.sol_price != 0) {
                    match fee(&ch, &n, *drop, inst.sol_price) {
                        None => rej.push(("fee does not fit", vec!["C21"])),
                        Some(f) => {
                            need!(f <= *max_fee, "fee above the payer's maximum", ["C21"]);
                            // what is there already counts towards the rent, not towards the fee
                            let pre = *self.pre.get(item).unwrap_or(&0);
                            let rent = rent_min(16);
                            let pays = rent.saturating_sub(pre) + (f - rent);
                            need!(self.affords(payer, pays), "payer cannot pay", ["C21"]);
                            stop!();
                            self.pay(*payer, pays);
                            self.pre.remove(item);
                            self.reqs.insert(*item, (*drop, pre + pays));
                        }
                    }
                }
                stop!();
            }
            C::Close { auth, item, recipient } => {
                need!(authorized(auth), "neither owner nor assistant", ["C22"]);
                need!(*recipient == inst.recipient, "closed to someone else", ["C22"]);
                need!(self.reqs.contains_key(item), "no open request", ["C22"]);
                stop!();
                let (_, l) = self.reqs.remove(item).unwrap();
                self.get(*recipient, l);
            }
        }
        Ok(())
    }
}

struct Slot {
    meta: solana_sdk::instruction::AccountMeta,
    bound: bool,
    name: &'static str,
}

fn slots(c: &C, m: &M) -> (Vec<Slot>, Vec<u8>) {
    let b = |meta, name| Slot { meta, bound: true, name };
    let f = |meta, name| Slot { meta, bound: false, name };
    let sys = || b(r(system_program::id()), "system_program");
    let u = |v: &[u64]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    match c {
        C::Init { owner, recipient } => (
            vec![b(ws(*owner), "owner"), b(w(instance()), "instance"), f(r(*recipient), "fee_recipient"), b(w(program_data(&P::quoter())), "program_data"), sys()],
            vec![],
        ),
        C::Assistant { owner, who } => {
            (vec![b(rs(*owner), "owner"), b(w(instance()), "instance"), f(r(who.unwrap_or(P::quoter())), "assistant")], vec![])
        }
        C::Recipient { owner, who } => (vec![b(rs(*owner), "owner"), b(w(instance()), "instance"), f(r(*who), "fee_recipient")], vec![]),
        C::RegChain { auth, chain } => (
            vec![b(ws(*auth), "authority"), b(r(instance()), "instance"), b(w(chain_key(*chain)), "registered_chain"), sys()],
            chain.to_le_bytes().to_vec(),
        ),
        C::RegNtt { auth, prog, idx, gas_cost } => {
            let mut a = prog.to_bytes().to_vec();
            a.push(*idx);
            a.extend_from_slice(&gas_cost.to_le_bytes());
            (vec![b(ws(*auth), "authority"), b(r(instance()), "instance"), b(w(ntt_key(prog)), "registered_ntt"), sys()], a)
        }
        C::DeregNtt { auth, prog } => (
            vec![b(ws(*auth), "authority"), b(r(instance()), "instance"), b(w(ntt_key(prog)), "registered_ntt"), sys()],
            prog.to_bytes().to_vec(),
        ),
        C::SolPrice { auth, price } => (vec![b(rs(*auth), "authority"), b(w(instance()), "instance")], u(&[*price])),
        C::Prices { auth, chain, native, gas } => (
            vec![b(rs(*auth), "authority"), b(r(instance()), "instance"), b(w(chain_key(*chain)), "registered_chain*")],
            u(&[*native, *gas]),
        ),
        C::Params { auth, chain, max_drop, base } => (
            vec![b(rs(*auth), "authority"), b(r(instance()), "instance"), b(w(chain_key(*chain)), "registered_chain*")],
            u(&[*max_drop, *base]),
        ),
        C::Request { payer, item, drop, max_fee } => {
            let it = m.items.get(item);
            (
                vec![
                    f(ws(*payer), "payer"),
                    b(r(instance()), "instance"),
                    b(r(chain_key(it.map(|i| i.chain).unwrap_or(0))), "registered_chain"),
                    b(r(ntt_key(&it.map(|i| i.program).unwrap_or_default())), "registered_ntt"),
                    f(r(*item), "outbox_item"),
                    b(w(req_key(item)), "relay_request"),
                    sys(),
                ],
                u(&[*drop, *max_fee]),
            )
        }
        C::Close { auth, item, recipient } => (
            vec![b(rs(*auth), "authority"), b(r(instance()), "instance"), b(w(*recipient), "fee_recipient"), b(w(req_key(item)), "relay_request*"), sys()],
            vec![],
        ),
    }
}

struct W {
    svm: Svm,
    m: M,
    fee_payer: Pubkey,
    salt: u64,
    n: u64,
}
fn mk(salt: u64, n: u64) -> Pubkey {
    Pubkey::new_from_array(hashv(&[b"quoter", &salt.to_le_bytes(), &n.to_le_bytes()]).to_bytes())
}

impl W {
    fn fresh(&mut self) -> Pubkey {
        self.n += 1;
        mk(self.salt, self.n)
    }
    fn exec(&mut self, c: &C, subst: Option<(usize, Pubkey)>, unsign: Option<usize>, obs: &mut Obs) -> Result<bool, Fail> {
        obs.ops += 1;
        obs.txs += 1;
        obs.mix(c.name());
        let (mut sl, args) = slots(c, &self.m);
        let mut m2 = self.m.clone();
        let mut rej: Rej = vec![];
        match m2.apply(c) {
            Err(e) => rej = e,
            Ok(()) => {
                if let Some((i, k)) = subst {
                    if sl[i].bound && sl[i].meta.pubkey != k {
                        let mut t = vec!["C18"];
                        match sl[i].name {
                            _ if !matches!(c, C::Request { .. }) => t.push("C22"),
                            "instance" => t.extend(["C21", "C22"]),
                            _ => t.push("C21"),
                        }
                        rej.push(("substituted account", t));
                    }
                }
                if let Some(i) = unsign {
                    if sl[i].meta.is_signer {
                        rej.push(("missing signature", if matches!(c, C::Request { .. }) { vec!["C18", "C21"] } else { vec!["C18", "C22"] }));
                    }
                }
            }
        }
        if let Some((i, k)) = subst {
            sl[i].meta.pubkey = k;
        }
        if let Some(i) = unsign {
            sl[i].meta.is_signer = false;
        }
        let ixn = Instruction { program_id: P::quoter(), accounts: sl.into_iter().map(|s| s.meta).collect(), data: ix_data(c.name(), &args) };
        let res = self.svm.tx(&self.fee_payer.clone(), &[ixn]);
        obs.mixn(res.is_ok() as u64);
        match (res, rej.is_empty()) {
            (Err(_), false) => {
                obs.class("rejected");
                for x in &rej {
                    obs.class(x.0);
                }
                obs.log(|| format!("{}: rejected as it must be ({})", c.name(), rej.iter().map(|r| r.0).collect::<Vec<_>>().join(", ")));
                Ok(false)
            }
            (Ok(_), false) => {
                let mut tags: Vec<&'static str> = rej.iter().flat_map(|r| r.1.clone()).collect();
                tags.sort();
                tags.dedup();
                let why = rej.iter().map(|r| r.0).collect::<Vec<_>>().join(", ");
                Err(Fail { site: format!("quoter-accepted:{}:{}", c.name(), why), tags, msg: format!("{c:?} succeeded although it must be rejected: {why} {subst:?}") })
            }
            (Err(e), true) => {
                Err(Fail { site: format!("quoter-refused:{}", c.name()), tags: c.promises(), msg: format!("{c:?} failed ({}) although it must succeed", e.0) })
            }
            (Ok(ok), true) => {
                obs.class(match c {
                    C::Request { .. } => "relay requested",
                    C::Close { .. } => "relay closed",
                    C::Init { .. } => "quoter initialized",
                    C::DeregNtt { .. } => "integration removed",
                    C::Assistant { .. } | C::Recipient { .. } => "owner setting changed",
                    _ => "setting changed",
                });
                obs.log(|| format!("{c:?}: ok"));
                self.m = m2;
                self.compare(c, &ok.changed)?;
                Ok(true)
            }
        }
    }

    fn compare(&self, c: &C, changed: &[Pubkey]) -> Result<(), Fail> {
        let m = &self.m;
        let bad = |site: &str, msg: String| Fail { site: format!("quoter-state:{}:{}", c.name(), site), tags: vec!["C21", "C22"].into_iter().filter(|t| c.promises().contains(t) || site != "lamports").collect(), msg: format!("after {c:?}: {msg}") };
        let mut want: BTreeMap<Pubkey, (Vec<u8>, Option<u64>)> = BTreeMap::new();
        let u = |v: &[u64]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
        if let Some(i) = &m.inst {
            let mut d = acc_disc("Instance").to_vec();
            d.extend_from_slice(i.owner.as_ref());
            d.extend_from_slice(i.assistant.as_ref());
            d.extend_from_slice(i.recipient.as_ref());
            d.extend_from_slice(&i.sol_price.to_le_bytes());
            want.insert(instance(), (d, None));
        }
        for (k, x) in &m.chains {
            let mut d = acc_disc("RegisteredChain").to_vec();
            d.push(pda_b(&[b"registered_chain", &k.to_be_bytes()], &P::quoter()).1);
            d.extend(u(&[x.max_drop, x.base, x.native, x.gas]));
            want.insert(chain_key(*k), (d, None));
        }
        for (k, x) in &m.ntts {
            let mut d = acc_disc("RegisteredNtt").to_vec();
            d.push(pda_b(&[b"registered_ntt", k.as_ref()], &P::quoter()).1);
            d.push(x.idx);
            d.extend_from_slice(&x.gas_cost.to_le_bytes());
            want.insert(ntt_key(k), (d, None));
        }
        for (k, (drop, l)) in &m.reqs {
            let mut d = acc_disc("RelayRequest").to_vec();
            d.extend_from_slice(&drop.to_le_bytes());
            want.insert(req_key(k), (d, Some(*l)));
        }
        for (k, (d, l)) in &want {
            match self.svm.get(k) {
                None => return Err(bad("missing", format!("account {k} does not exist"))),
                Some(a) => {
                    if a.owner != P::quoter() || a.data.len() < d.len() || a.data[..d.len()] != d[..] {
                        return Err(bad("data", format!("account {k} holds {:02x?}, must hold {:02x?}", a.data, d)));
                    }
                    if let Some(l) = l {
                        if a.lamports != *l {
                            return Err(bad("lamports", format!("request holds {} lamports, must hold {l}", a.lamports)));
                        }
                    }
                }
            }
        }
        for k in changed {
            if want.contains_key(k) || m.lamports.contains_key(k) {
                continue;
            }
            if let Some(a) = self.svm.get(k) {
                if a.lamports > 0 {
                    return Err(bad("unexpected", format!("unrelated account {k} changed")));
                }
            }
        }
        for (k, l) in &m.lamports {
            let g = self.svm.get(k).map(|a| a.lamports).unwrap_or(0);
            if g != *l {
                return Err(bad("lamports", format!("wallet {k} holds {g} lamports, must hold {l}")));
            }
        }
        Ok(())
    }
}

pub fn history(s: &mut Src, obs: &mut Obs, forge: u64, mean: u64) -> Result<(), Fail> {
    s.begin();
    let salt = s.below(16);
    let mut svm = base_svm();
    svm.set_time(1_700_000_000);
    let people: Vec<Pubkey> = (0..6).map(|i| mk(salt, 1000 + i)).collect();
    let fee_payer = mk(salt, 999);
    svm.airdrop(fee_payer, 1 << 40);
    let mut lamports = BTreeMap::new();
    for (i, k) in people.iter().enumerate() {
        let l = if i == 4 { 5_000_000 } else { 1 << 60 };
        svm.airdrop(*k, l);
        lamports.insert(*k, l);
    }
    let upgrade = if s.chance(1, 12) { None } else { Some(people[0]) };
    svm.put(program_data(&P::quoter()), bpf_loader_upgradeable::id(), loader_program_data(upgrade));
    let m = M { upgrade, inst: None, chains: BTreeMap::new(), ntts: BTreeMap::new(), reqs: BTreeMap::new(), pre: BTreeMap::new(), items: BTreeMap::new(), lamports };
    let mut w = W { svm, m, fee_payer, salt, n: 0 };
    let progs = [P::ntt(), P::fake_transceiver(0), P::fake_transceiver(1), P::noop_program()];
    let chains = match s.below(4) {
        0 => [2u16, 3, 512, 4],
        1 => [0, 2, 0x8002, 0x4002],
        2 => [65535, 255, 0x1002, 2],
        _ => {
            let a = s.below(65536) as u16;
            [a, a ^ (1 << s.below(16)), a.swap_bytes() ^ (a == a.swap_bytes()) as u16, a ^ 0x3001]
        }
    };
    let chains: Vec<u16> = {
        let mut v: Vec<u16> = vec![];
        for mut c in chains {
            while v.contains(&c) {
                c = c.wrapping_add(7);
            }
            v.push(c);
        }
        v
    };
    // a world whose fees come out next to the rent minimum
    let fine = s.chance(1, 5);
    for i in 0..6u64 {
        let released = match s.below(4) {
            0 => 1,
            1 => u128::MAX,
            2 => (s.raw64() as u128) << 64 | s.raw64() as u128,
            _ => 0,
        };
        let it = Item { program: progs[s.weighted(&[5, 2, 1, 1])], chain: chains[s.weighted(&[4, 2, 1, 1])], released };
        let k = mk(salt, 2000 + i);
        w.svm.put(
            k,
            it.program,
            out_bytes(&OutItem { amount: 5, decimals: 6, sender: people[2], chain: it.chain, mgr: [1; 32], to: [2; 32], release: 0, released }),
        );
        w.m.items.insert(k, it);
        if s.chance(1, 6) {
            let rent = rent_min(16);
            let n = match s.below(4) {
                0 => rent,
                1 => rent + 1 + s.below(2_000_000),
                _ => s.range(rent_min(0), rent + 2),
            };
            w.svm.airdrop(req_key(&k), n);
            w.m.pre.insert(k, n);
        }
    }
    s.end();
    let items: Vec<Pubkey> = w.m.items.keys().copied().collect();
    let init = C::Init { owner: people[0], recipient: people[1] };
    let setup = s.chance(7, 8);
    if !setup {
        if s.bool() {
            w.exec(&C::Init { owner: people[2], recipient: people[2] }, None, None, obs)?;
        }
        if s.bool() {
            w.exec(&C::Init { owner: people[0], recipient: Pubkey::default() }, None, None, obs)?;
        }
        if s.bool() {
            w.exec(&C::SolPrice { auth: people[0], price: 5 }, None, None, obs)?;
        }
    }
    w.exec(&init, None, None, obs)?;
    let price = |s: &mut Src| match s.weighted(&[4, 2, 2, 1]) {
        0 => (1 + s.below(5000)) * 1_000_000,
        1 => s.below(10_000),
        2 => s.mag64(),
        _ => s.below(3),
    };
    if setup {
        let p = if fine { 1_000_000_000 } else { price(s) };
        w.exec(&C::SolPrice { auth: people[0], price: p }, None, None, obs)?;
        for ch in &chains[..2] {
            w.exec(&C::RegChain { auth: people[0], chain: *ch }, None, None, obs)?;
            if s.chance(7, 8) {
                let native = if fine { s.below(3) } else { price(s) };
                let c = C::Prices { auth: people[0], chain: *ch, native, gas: price(s) };
                w.exec(&c, None, None, obs)?;
                let base = if fine { rent_min(16) - 3 + s.below(16) } else { price(s) };
                let c = C::Params { auth: people[0], chain: *ch, max_drop: price(s), base };
                w.exec(&c, None, None, obs)?;
            }
        }
        for p in &progs[..2] {
            let c = C::RegNtt { auth: people[0], prog: *p, idx: *s.pick(&[0u8, 1, 5, 127]), gas_cost: s.below(1_000_000) as u32 };
            w.exec(&c, None, None, obs)?;
        }
        if s.bool() {
            w.exec(&C::Assistant { owner: people[0], who: Some(people[3]) }, None, None, obs)?;
        }
    }
    let mut n = 0;
    while n < mean * 4 && s.more(mean) {
        s.begin();
        n += 1;
        let inst = w.m.inst.clone();
        let auth = |s: &mut Src| -> Pubkey {
            match (s.below(8), &inst) {
                (0, _) => *s.pick(&people),
                (1 | 2, Some(i)) if i.assistant != Pubkey::default() => i.assistant,
                (_, Some(i)) => i.owner,
                _ => people[0],
            }
        };
        let owner = |s: &mut Src| -> Pubkey {
            match (s.below(6), &inst) {
                (0, _) => *s.pick(&people),
                (1, Some(i)) if i.assistant != Pubkey::default() => i.assistant,
                (_, Some(i)) => i.owner,
                _ => people[0],
            }
        };
        let c = match s.weighted(&[12, 5, 2, 2, 2, 2, 2, 2, 3, 3, 1]) {
            0 => {
                let item = *s.pick(&items);
                let it = w.m.items[&item].clone();
                let (mut drop, mut max_fee) = (s.below(1000), u64::MAX);
                if let (Some(ch), Some(nt), Some(i)) = (w.m.chains.get(&it.chain), w.m.ntts.get(&it.program), &inst) {
                    drop = match s.below(5) {
                        0 => 0,
                        1 => ch.max_drop,
                        2 => ch.max_drop.saturating_add(1),
                        3 => s.range(0, ch.max_drop),
                        _ => s.mag64(),
                    };
                    if i.sol_price != 0 {
                        if let Some(f) = fee(ch, nt, drop, i.sol_price) {
                            max_fee = match s.below(5) {
                                0 => f,
                                1 => f - 1,
                                2 => f.saturating_add(1),
                                _ => u64::MAX,
                            };
                        }
                    }
                }
                let payer = if s.chance(1, 6) { people[4] } else { people[2] };
                C::Request { payer, item, drop, max_fee }
            }
            1 => {
                let v: Vec<Pubkey> = w.m.reqs.keys().copied().collect();
                let item = if v.is_empty() || s.chance(1, 6) { *s.pick(&items) } else { *s.pick(&v) };
                let rec = match (s.below(6), &inst) {
                    (0, _) => *s.pick(&people),
                    (_, Some(i)) => i.recipient,
                    _ => people[1],
                };
                C::Close { auth: auth(s), item, recipient: rec }
            }
            2 => C::Assistant { owner: owner(s), who: if s.bool() { Some(*s.pick(&people)) } else { None } },
            3 => {
                let who = if s.chance(1, 8) { Pubkey::default() } else { *s.pick(&people[..5]) };
                C::Recipient { owner: owner(s), who }
            }
            4 => C::RegChain { auth: auth(s), chain: *s.pick(&chains) },
            5 => C::RegNtt { auth: auth(s), prog: *s.pick(&progs), idx: *s.pick(&[0u8, 1, 127, 128, 255]), gas_cost: s.raw64() as u32 },
            6 => C::DeregNtt { auth: auth(s), prog: *s.pick(&progs) },
            7 => C::SolPrice { auth: auth(s), price: price(s) },
            8 => C::Prices { auth: auth(s), chain: *s.pick(&chains), native: price(s), gas: price(s) },
            9 => C::Params { auth: auth(s), chain: *s.pick(&chains), max_drop: price(s), base: if s.chance(1, 5) { u64::MAX } else { price(s) } },
            _ => C::Init { owner: *s.pick(&people), recipient: people[1] },
        };
        if s.chance(forge, 100) && w.m.clone().apply(&c).is_ok() {
            let (sl, _) = slots(&c, &w.m);
            let signers: Vec<usize> = (0..sl.len()).filter(|i| sl[*i].meta.is_signer).collect();
            if s.chance(1, 4) {
                let i = *s.pick(&signers);
                obs.class("required signature missing");
                w.exec(&c, None, Some(i), obs)?;
            } else {
                let bound: Vec<usize> = (0..sl.len()).filter(|i| sl[*i].bound).collect();
                let i = *s.pick(&bound);
                let real = sl[i].meta.pubkey;
                let k = if sl[i].meta.is_signer {
                    // someone without the role
                    let ok: Vec<Pubkey> =
                        people.iter().copied().filter(|p| inst.as_ref().map(|x| *p != x.owner && *p != x.assistant).unwrap_or(*p != people[0])).collect();
                    *s.pick(&ok)
                } else if s.bool() {
                    let d = w.svm.get(&real).map(|a| a.data.clone()).unwrap_or_default();
                    let k = w.fresh();
                    let real_owner = w.svm.get(&real).map(|a| a.owner);
                    match real_owner {
                        Some(o) if d.len() >= 8 && s.chance(1, 3) => {
                            obs.class("account of another type with the same contents");
                            let mut d = d;
                            crate::layout::retype(&mut d, s);
                            w.svm.put(k, o, d);
                        }
                        _ => {
                            let o = *s.pick(&[P::noop_program(), system_program::id(), P::ntt()]);
                            w.svm.put(k, o, d);
                        }
                    }
                    k
                } else {
                    let mut v = vec![instance(), people[5], items[0]];
                    if !sl[i].name.ends_with('*') {
                        v.extend(w.m.chains.keys().map(|c| chain_key(*c)));
                        v.extend(w.m.ntts.keys().map(ntt_key));
                        v.extend(w.m.reqs.keys().map(req_key));
                    } else if sl[i].name == "relay_request*" {
                        v.extend(w.m.chains.keys().map(|c| chain_key(*c)));
                        v.extend(w.m.ntts.keys().map(ntt_key));
                    } else {
                        v.extend(w.m.reqs.keys().map(req_key));
                        v.extend(w.m.ntts.keys().map(ntt_key));
                    }
                    v.retain(|k| *k != real);
                    *s.pick(&v)
                };
                obs.class("account substituted");
                obs.log(|| format!("substitute {} of {}", sl[i].name, c.name()));
                w.exec(&c, Some((i, k)), None, obs)?;
            }
        } else {
            w.exec(&c, None, None, obs)?;
        }
        s.end();
    }
    Ok(())
}

// ---- through the TypeScript client ----

fn close(a: &Value, b: f64) -> bool {
    a.as_f64().map(|a| (a - b).abs() <= b.abs() * 1e-9).unwrap_or(false)
}
fn usd(v: u64) -> f64 {
    v as f64 / 1e6
}
fn nine(v: u64) -> f64 {
    v as f64 / 1e9
}
fn ts_bad(site: &str, msg: String) -> Fail {
    Fail { site: format!("quoter-client:{site}"), tags: vec!["C31"], msg }
}

impl W {
    fn ask(&self, f: &str, a: Value, obs: &mut Obs) -> Option<Result<Value, String>> {
        match cl::ask(&json!({"f": f, "a": a, "accts": cl::accounts(&self.svm), "slot": 0})) {
            Ok(v) => Some(Ok(v)),
            Err(cl::No::Err(e)) => Some(Err(e)),
            Err(cl::No::Missing(e)) => {
                obs.class("skip:client needs a library the stand-ins lack");
                obs.log(|| format!("{f}: {e}"));
                None
            }
        }
    }
    /// how the client is asked for this call, if it offers it
    fn request(&self, c: &C) -> Option<(&'static str, Value)> {
        let k = cl::k;
        let owner = self.m.inst.as_ref().map(|i| i.owner);
        Some(match c {
            C::Init { owner, recipient } if self.m.upgrade == Some(*owner) => ("q_initialize", json!({"recipient": k(recipient)})),
            C::Assistant { owner: o, who: Some(w) } if owner == Some(*o) && self.m.inst.as_ref()?.assistant != *w => ("q_set_assistant", json!({"key": k(w)})),
            C::Recipient { owner: o, who } if owner == Some(*o) && self.m.inst.as_ref()?.recipient != *who => ("q_set_recipient", json!({"key": k(who)})),
            C::RegChain { auth, chain } => ("q_register_chain", json!({"authority": k(auth), "chain": chain})),
            C::RegNtt { auth, prog, idx, gas_cost } => ("q_register_ntt", json!({"authority": k(auth), "ntt": k(prog), "gasCost": gas_cost, "index": idx})),
            C::DeregNtt { auth, prog } => ("q_deregister_ntt", json!({"authority": k(auth), "ntt": k(prog)})),
            C::SolPrice { auth, price } => ("q_sol_price", json!({"authority": k(auth), "price": usd(*price)})),
            C::Prices { auth, chain, native, gas } => ("q_chain_prices", json!({"authority": k(auth), "chain": chain, "nativePriceUsd": usd(*native), "gasPriceGwei": nine(*gas)})),
            C::Params { auth, chain, max_drop: 0, base: u64::MAX } => ("q_pause_chain", json!({"authority": k(auth), "chain": chain})),
            C::Params { auth, chain, max_drop, base } => ("q_chain_params", json!({"authority": k(auth), "chain": chain, "maxDropoffEth": nine(*max_drop), "basePriceUsd": usd(*base)})),
            C::Request { payer, item, drop, max_fee } => {
                let it = self.m.items.get(item)?;
                ("q_request", json!({"payer": k(payer), "outbox": k(item), "chain": it.chain, "nttId": k(&it.program), "maxFeeSol": nine(*max_fee), "dropoffEth": nine(*drop)}))
            }
            C::Close { auth, item, recipient } if self.m.inst.as_ref().map(|i| i.recipient) == Some(*recipient) => ("q_close", json!({"authority": k(auth), "outbox": k(item)})),
            _ => return None,
        })
    }
    fn exec_client(&mut self, c: &C, obs: &mut Obs) -> Result<bool, Fail> {
        let Some((f, a)) = self.request(c) else {
            return self.exec(c, None, None, obs);
        };
        let built = match self.ask(f, a, obs) {
            None => return self.exec(c, None, None, obs),
            Some(Err(e)) => Err(e),
            Some(Ok(v)) => match cl::txs(&v) {
                Some(t) if t.len() == 1 => Ok(t[0].clone()),
                _ => Err("nothing built".into()),
            },
        };
        obs.class("built by the client");
        let may: Vec<Pubkey> = slots(c, &self.m).0.iter().filter(|s| s.meta.is_signer).map(|s| s.meta.pubkey).collect();
        let snapshot = (self.svm.clone(), self.m.clone());
        let res = match &built {
            Err(e) => Err(e.clone()),
            Ok(v) => match v.iter().flat_map(|i| i.accounts.iter()).find(|m| m.is_signer && !may.contains(&m.pubkey)) {
                Some(m) => Err(format!("the signature of {} cannot be had", m.pubkey)),
                None => self.svm.tx(&self.fee_payer.clone(), v).map_err(|e| e.0),
            },
        };
        let mut m2 = self.m.clone();
        let want = m2.apply(c);
        let wrong = match (&res, &want) {
            (Err(_), Err(_)) => None,
            (Ok(_), Err(r)) => Some(format!("succeeded although it must be rejected: {}", r[0].0)),
            (Err(e), Ok(())) => Some(format!("failed ({e}) although it must succeed")),
            (Ok(ok), Ok(())) => {
                self.m = m2;
                self.compare(c, &ok.changed).err().map(|f| f.msg)
            }
        };
        match wrong {
            None => {
                obs.ops += 1;
                obs.txs += 1;
                obs.mix(c.name());
                obs.class(if res.is_ok() { "client transaction accepted" } else { "client transaction rejected" });
                obs.log(|| format!("client {f} {c:?}: {}", if res.is_ok() { "ok" } else { "rejected" }));
                Ok(res.is_ok())
            }
            Some(msg) => {
                // not the client's doing if the call as such does not behave
                (self.svm, self.m) = snapshot;
                self.exec(c, None, None, obs)?;
                Err(ts_bad(f, format!("{c:?} as the client builds it: {msg}")))
            }
        }
    }
    fn read(&self, items: &[Pubkey], chains: &[u16], obs: &mut Obs) -> Result<(), Fail> {
        let m = &self.m;
        for c in chains {
            let want = m.chains.get(c).map(|x| x.base != u64::MAX).unwrap_or(false);
            if let Some(r) = self.ask("q_enabled", json!({ "chain": c }), obs) {
                if r.as_ref().ok().map(|v| v["v"] == json!(want)) != Some(true) {
                    return Err(ts_bad("enabled", format!("relaying to chain {c} ({:?}) is reported as {r:?}", m.chains.get(c))));
                }
            }
        }
        for i in items {
            let want = m.reqs.get(i).map(|r| nine(r.0));
            if let Some(r) = self.ask("q_requested", json!({ "outbox": cl::k(i) }), obs) {
                let ok = match (&r, want) {
                    (Ok(v), None) => v["v"].is_null(),
                    (Ok(v), Some(w)) => close(&v["v"], w),
                    (Err(_), _) => false,
                };
                if !ok {
                    return Err(ts_bad("requested", format!("the drop-off requested for a transfer is reported as {r:?}, it is {want:?}")));
                }
                obs.class(if want.is_some() { "open request read" } else { "absent request read" });
            }
        }
        let Some(i) = &m.inst else { return Ok(()) };
        let a = json!({"chains": m.chains.keys().collect::<Vec<_>>(), "ntts": m.ntts.keys().map(cl::k).collect::<Vec<_>>()});
        match self.ask("q_state", a, obs) {
            None => {}
            Some(Err(e)) => return Err(ts_bad("state", format!("the client cannot read the quoter's state: {e}"))),
            Some(Ok(v)) => {
                let v = &v["v"];
                let n = &v["instance"];
                let mut ok = n["owner"] == json!(cl::k(&i.owner)) && n["assistant"] == json!(cl::k(&i.assistant)) && n["feeRecipient"] == json!(cl::k(&i.recipient)) && close(&n["solPriceUsd"], usd(i.sol_price));
                for (c, x) in &m.chains {
                    let g = &v["chains"][c.to_string()];
                    let paused = x.base == u64::MAX;
                    ok &= g["paused"] == json!(paused) && close(&g["maxGasDropoffEth"], nine(x.max_drop)) && close(&g["nativePriceUsd"], usd(x.native)) && close(&g["gasPriceGwei"], nine(x.gas));
                    ok &= paused || close(&g["basePriceUsd"], usd(x.base));
                }
                for (p, x) in &m.ntts {
                    let g = &v["ntts"][cl::k(p)];
                    ok &= g["gasCost"] == json!(x.gas_cost) && g["wormholeTransceiverIndex"] == json!(x.idx);
                }
                if !ok {
                    return Err(ts_bad("state", format!("the client reports {v}, the quoter holds {i:?} {:?} {:?}", m.chains, m.ntts)));
                }
                obs.class("quoter state read");
            }
        }
        Ok(())
    }
    /// a quote for relaying to this chain; None when there is none to be had
    fn quote(&self, prog: &Pubkey, chain: u16, drop: u64, obs: &mut Obs) -> Result<Option<u64>, Fail> {
        let m = &self.m;
        let ch = m.chains.get(&chain);
        let sol = m.inst.as_ref().map(|i| i.sol_price).unwrap_or(0);
        let f = match (ch, m.ntts.get(prog)) {
            (Some(c), Some(n)) if c.base != u64::MAX && drop <= c.max_drop && sol != 0 => fee(c, n, drop, sol),
            _ => None,
        };
        // without the program's rounding
        let exact = match (ch, m.ntts.get(prog)) {
            (Some(c), Some(n)) => rent_min(16) as f64 + (c.base as f64 + c.native as f64 * (drop as f64 + c.gas as f64 * n.gas_cost as f64 / 1e9) / 1e9) / sol as f64 * 1e9,
            _ => 0.0,
        };
        let what = || format!("a relay to {chain} ({ch:?}) with drop-off {drop} for {:?} at {sol}", m.ntts.get(prog));
        if *prog == P::ntt() {
            let Some(r) = self.ask("q_quote", if drop == 0 { json!({"chain": chain}) } else { json!({"chain": chain, "dropoff": (drop as u128 * 1_000_000_000).to_string()}) }, obs) else {
                return Ok(None);
            };
            let got = r.as_ref().ok().and_then(|v| v["v"].as_str()?.parse::<u64>().ok());
            match (f, got) {
                (None, None) => {
                    obs.class("no quote");
                    return Ok(None);
                }
                (None, Some(g)) => return Err(ts_bad("quote", format!("{} is quoted {g} although it cannot be had", what()))),
                (Some(f), None) => {
                    if f < 1 << 50 && ch.map(|c| c.native != 0) == Some(true) {
                        return Err(ts_bad("quote", format!("{} costs {f} but is not quoted: {r:?}", what())));
                    }
                    return Ok(None);
                }
                (Some(f), Some(g)) => {
                    if g < f {
                        return Err(ts_bad("quote", format!("{} costs {f} but is quoted {g}", what())));
                    }
                    if (g as f64) < f as f64 * 1.0499 - 1.0 {
                        return Err(ts_bad("quote", format!("{} costs {f} but is quoted {g}: no margin of 5 %", what())));
                    }
                    if g as f64 > exact * 1.0501 + 2.0 {
                        return Err(ts_bad("quote", format!("{} costs {f} but is quoted {g}: more than the rent and a margin of 5 % above", what())));
                    }
                    obs.class("quote covers the fee");
                    return Ok(Some(g));
                }
            }
        }
        if let (Some(f), Some(r)) = (f, self.ask("q_cost", json!({"chain": chain, "ntt": cl::k(prog), "dropoffEth": nine(drop)}), obs)) {
            let g = r.as_ref().ok().and_then(|v| v["v"].as_f64()).unwrap_or(-1.0) * 1e9;
            if g < f as f64 * (1.0 - 1e-9) || g > exact * (1.0 + 1e-9) + 2.0 {
                return Err(ts_bad("cost", format!("{} costs {f} but is estimated at {r:?} SOL", what())));
            }
            obs.class("estimate covers the fee");
        }
        // more than the chain allows
        if let Some(c) = ch {
            if m.ntts.contains_key(prog) && m.inst.is_some() && drop as f64 / 1e9 > c.max_drop as f64 / 1e9 {
                if let Some(Ok(v)) = self.ask("q_cost", json!({"chain": chain, "ntt": cl::k(prog), "dropoffEth": nine(drop)}), obs) {
                    return Err(ts_bad("cost-max", format!("{} is above the maximum drop-off but is estimated at {v} SOL", what())));
                }
                obs.class("no estimate above the maximum drop-off");
            }
        }
        Ok(None)
    }
}

pub fn client_history(s: &mut Src, obs: &mut Obs, mean: u64) -> Result<(), Fail> {
    s.begin();
    let salt = s.below(16);
    let mut svm = base_svm();
    svm.set_time(1_700_000_000);
    let people: Vec<Pubkey> = (0..6).map(|i| mk(salt, 1000 + i)).collect();
    let fee_payer = mk(salt, 999);
    svm.airdrop(fee_payer, 1 << 40);
    let mut lamports = BTreeMap::new();
    for k in &people {
        svm.airdrop(*k, 1 << 52);
        lamports.insert(*k, 1 << 52);
    }
    let upgrade = if s.chance(1, 12) { None } else { Some(people[0]) };
    let mut pd = loader_program_data(upgrade);
    pd.extend(s.bytes(40));
    svm.put(program_data(&P::quoter()), bpf_loader_upgradeable::id(), pd);
    let m = M { upgrade, inst: None, chains: BTreeMap::new(), ntts: BTreeMap::new(), reqs: BTreeMap::new(), pre: BTreeMap::new(), items: BTreeMap::new(), lamports };
    let mut w = W { svm, m, fee_payer, salt, n: 0 };
    let progs = [P::ntt(), P::fake_transceiver(0), P::fake_transceiver(1)];
    let far = 2 + s.below(65_000) as u16;
    let mut chains = vec![2u16, 30, 512];
    if !chains.contains(&far) {
        chains.push(far);
    }
    for i in 0..6u64 {
        let released = *s.pick(&[1u128, u128::MAX, 0, 2]);
        let it = Item { program: progs[s.weighted(&[7, 2, 1])], chain: chains[s.weighted(&[4, 2, 1, 1][..chains.len()])], released };
        let k = mk(salt, 2000 + i);
        w.svm.put(k, it.program, out_bytes(&OutItem { amount: 5, decimals: 6, sender: people[2], chain: it.chain, mgr: [1; 32], to: [2; 32], release: 0, released }));
        w.m.items.insert(k, it);
    }
    s.end();
    let items: Vec<Pubkey> = w.m.items.keys().copied().collect();
    w.read(&items[..1], &chains[..1], obs)?;
    w.exec_client(&C::Init { owner: people[0], recipient: people[1] }, obs)?;
    let price = |s: &mut Src| match s.weighted(&[4, 2, 2]) {
        0 => (1 + s.below(5000)) * 1_000_000,
        1 => s.below(10_000),
        _ => s.raw64() >> (19 + s.below(40)),
    };
    // 0 to a million coins
    let drop = |s: &mut Src| s.raw64() >> (14 + s.below(40));
    w.exec_client(&C::SolPrice { auth: people[0], price: price(s) }, obs)?;
    for ch in &chains[..2] {
        w.exec_client(&C::RegChain { auth: people[0], chain: *ch }, obs)?;
        if s.chance(7, 8) {
            w.exec_client(&C::Prices { auth: people[0], chain: *ch, native: price(s), gas: price(s) }, obs)?;
            w.exec_client(&C::Params { auth: people[0], chain: *ch, max_drop: drop(s), base: price(s) }, obs)?;
        }
    }
    for p in &progs[..2] {
        w.exec_client(&C::RegNtt { auth: people[0], prog: *p, idx: s.below(2) as u8, gas_cost: s.below(1_000_000) as u32 }, obs)?;
    }
    let mut n = 0;
    while n < mean * 4 && s.more(mean) {
        s.begin();
        n += 1;
        let inst = w.m.inst.clone();
        let auth = |s: &mut Src| -> Pubkey {
            match (s.below(8), &inst) {
                (0, _) => *s.pick(&people),
                (1 | 2, Some(i)) if i.assistant != Pubkey::default() => i.assistant,
                (_, Some(i)) => i.owner,
                _ => people[0],
            }
        };
        let owner = inst.as_ref().map(|i| i.owner).unwrap_or(people[0]);
        let c = match s.weighted(&[14, 5, 1, 1, 1, 1, 1, 2, 3, 3, 4]) {
            0 => {
                let item = *s.pick(&items);
                let it = w.m.items[&item].clone();
                let most = w.m.chains.get(&it.chain).map(|c| c.max_drop).unwrap_or(0);
                let d = match s.below(5) {
                    0 => 0,
                    1 => most,
                    2 => most + 1,
                    _ => s.range(0, most),
                };
                let q = w.quote(&it.program, it.chain, d, obs)?;
                let max_fee = match (q, s.chance(1, 4)) {
                    (Some(q), false) => q,
                    _ => s.raw64() >> (14 + s.below(40)),
                };
                if q == Some(max_fee) {
                    obs.class("relay requested at the quoted price");
                }
                C::Request { payer: people[2 + s.idx(3)], item, drop: d, max_fee }
            }
            1 => {
                let v: Vec<Pubkey> = w.m.reqs.keys().copied().collect();
                let item = if v.is_empty() || s.chance(1, 6) { *s.pick(&items) } else { *s.pick(&v) };
                C::Close { auth: auth(s), item, recipient: inst.as_ref().map(|i| i.recipient).unwrap_or(people[1]) }
            }
            2 => C::Assistant { owner, who: Some(*s.pick(&people)) },
            3 => C::Recipient { owner, who: *s.pick(&people) },
            4 => C::RegChain { auth: auth(s), chain: *s.pick(&chains) },
            5 => C::RegNtt { auth: auth(s), prog: *s.pick(&progs), idx: *s.pick(&[0u8, 1, 127, 255]), gas_cost: s.raw64() as u32 },
            6 => C::DeregNtt { auth: auth(s), prog: *s.pick(&progs) },
            7 => C::SolPrice { auth: auth(s), price: price(s) },
            8 => C::Prices { auth: auth(s), chain: *s.pick(&chains), native: price(s), gas: price(s) },
            9 => {
                if s.chance(1, 3) {
                    C::Params { auth: auth(s), chain: *s.pick(&chains[..2]), max_drop: 0, base: u64::MAX }
                } else {
                    C::Params { auth: auth(s), chain: *s.pick(&chains), max_drop: drop(s), base: price(s) }
                }
            }
            _ => {
                w.read(&items, &chains, obs)?;
                s.end();
                continue;
            }
        };
        w.exec_client(&c, obs)?;
        s.end();
    }
    w.read(&items, &chains, obs)
}

/// a quoter that serves this chain and the manager
pub fn fixture(chain: u16, idx: u8) -> Vec<(Pubkey, Vec<u8>)> {
    let u = |v: &[u64]| v.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let i = [&acc_disc("Instance")[..], &[1; 32], &[0; 32], &[2; 32], &u(&[150_000_000])].concat();
    let c = [&acc_disc("RegisteredChain")[..], &[pda_b(&[b"registered_chain", &chain.to_be_bytes()], &P::quoter()).1], &u(&[5_000_000_000, 300_000, 2_000_000_000, 7_000_000_000])].concat();
    let n = [&acc_disc("RegisteredNtt")[..], &[pda_b(&[b"registered_ntt", P::ntt().as_ref()], &P::quoter()).1], &[idx], &400_000u32.to_le_bytes()].concat();
    vec![(instance(), i), (chain_key(chain), c), (ntt_key(&P::ntt()), n)]
}
/// the drop-off of an open request
pub fn requested(svm: &Svm, item: &Pubkey) -> Option<u64> {
    let a = svm.get(&req_key(item))?;
    Some(u64::from_le_bytes(a.data.get(8..16)?.try_into().ok()?))
}
