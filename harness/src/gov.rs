//! The governance program: genuine and forged governance messages against an echoing target.
use crate::engine::{Fail, Obs, Src};
use crate::layout::*;
use crate::programs as P;
use crate::svm::Svm;
use crate::world::base_svm;
use solana_sdk::{
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};
use std::collections::BTreeSet;

pub fn module() -> B32 {
    let mut m = [0u8; 32];
    m[8..].copy_from_slice(b"GeneralPurposeGovernance");
    m
}
pub fn governance_emitter() -> B32 {
    let mut e = [0u8; 32];
    e[31] = 4;
    e
}
fn sentinel(s: &[u8]) -> Pubkey {
    let mut k = [0u8; 32];
    k[..s.len()].copy_from_slice(s);
    Pubkey::new_from_array(k)
}
pub fn governance_pda() -> Pubkey {
    pda(&[b"governance"], &P::governance())
}
fn replay_key(chain: u16, emitter: &B32, seq: u64) -> Pubkey {
    pda(&[b"replay", &chain.to_be_bytes(), emitter, &seq.to_be_bytes()], &P::governance())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub module: B32,
    pub action: u8,
    pub chain: u16,
    pub gov: Pubkey,
    pub program: Pubkey,
    pub accounts: Vec<(Pubkey, u8, u8)>,
    pub data: Vec<u8>,
}
impl Msg {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.module.to_vec();
        v.push(self.action);
        v.extend_from_slice(&self.chain.to_be_bytes());
        v.extend_from_slice(self.gov.as_ref());
        v.extend_from_slice(self.program.as_ref());
        v.extend_from_slice(&(self.accounts.len() as u16).to_be_bytes());
        for (k, s, w) in &self.accounts {
            v.extend_from_slice(k.as_ref());
            v.push(*s);
            v.push(*w);
        }
        v.extend_from_slice(&(self.data.len() as u16).to_be_bytes());
        v.extend_from_slice(&self.data);
        v
    }
}

fn mk(n: u64) -> Pubkey {
    Pubkey::new_from_array(hashv(&[b"gov", &n.to_le_bytes()]).to_bytes())
}

struct Posted {
    key: Pubkey,
    chain: u16,
    emitter: B32,
    seq: u64,
    msg: Option<Msg>,
    owner_ok: bool,
}

fn fail(site: String, tags: &[&'static str], msg: String) -> Fail {
    Fail { site, tags: tags.to_vec(), msg }
}

pub fn history(s: &mut Src, obs: &mut Obs, forge: u64, mean: u64) -> Result<(), Fail> {
    let mut svm: Svm = base_svm();
    svm.set_time(1_700_000_000);
    let fee_payer = mk(0);
    svm.airdrop(fee_payer, 1 << 50);
    let payer = mk(1);
    svm.airdrop(payer, 1 << 50);
    let other = mk(2);
    svm.airdrop(other, 1 << 50);
    // the governance authority can hold funds
    svm.airdrop(governance_pda(), 1 << 40);
    let data_accounts: Vec<Pubkey> = (10..16).map(mk).collect();
    for k in &data_accounts {
        svm.put(*k, P::noop_program(), vec![1, 2, 3]);
    }
    // things that cannot sign
    let mut posted: Vec<Posted> = vec![];
    let mut done: BTreeSet<(u16, B32, u64)> = BTreeSet::new();
    let mut n = 0;
    while n < 4 * mean && s.more(mean) {
        n += 1;
        s.begin();
        // a new message, or an earlier one again
        if posted.is_empty() || s.chance(2, 3) {
            let na = if s.chance(1, 12) { s.range(20, 60) as usize } else { s.below(6) as usize };
            let mut accounts = vec![];
            for _ in 0..na {
                let (k, sg) = match s.weighted(&[4, 3, 3, 1, 1]) {
                    0 => (*s.pick(&data_accounts), 0),
                    1 => (sentinel(b"owner"), s.below(2) as u8),
                    2 => (sentinel(b"payer"), s.below(2) as u8),
                    3 => (*s.pick(&data_accounts), 1),
                    _ => (*s.pick(&[sentinel(b"Owner"), sentinel(b"owners"), other, governance_pda(), payer]), s.below(2) as u8),
                };
                accounts.push((k, sg, s.below(2) as u8));
            }
            let program = *s.pick(&[P::noop_program(), P::noop_program(), P::noop_program(), system_program::id(), mk(77), P::governance()]);
            let data = if program == system_program::id() {
                // system transfer from the governance authority
                accounts = vec![(sentinel(b"owner"), 1, 1), (*s.pick(&[sentinel(b"payer"), other]), 0, 1)];
                let mut d = 2u32.to_le_bytes().to_vec();
                d.extend_from_slice(&(1 + s.below(1000)).to_le_bytes());
                d
            } else if s.chance(1, 12) {
                vec![0xD7; s.below(3000) as usize]
            } else {
                s.bytes(40)
            };
            let mut m = Msg { module: module(), action: 2, chain: 1, gov: P::governance(), program, accounts, data };
            let (mut chain, mut em) = (1u16, governance_emitter());
            let mut owner_ok = true;
            let mut malformed = false;
            let seq = s.below(4) + if s.chance(1, 6) { 1 << 56 } else { 0 };
            if s.chance(1, 3) {
                match s.below(9) {
                    0 => chain = *s.pick(&[2u16, 0, 256, 257]),
                    1 => em[s.idx(32)] ^= 1 << s.below(8),
                    2 => m.module[s.idx(32)] ^= 1 << s.below(8),
                    3 => m.action = *s.pick(&[0u8, 1, 3, 255]),
                    4 => m.chain = *s.pick(&[0u16, 2, 256, 65535]),
                    5 => m.gov = *s.pick(&[P::ntt(), Pubkey::default(), mk(5)]),
                    6 => owner_ok = false,
                    7 => malformed = true,
                    _ => {
                        if let Some(a) = m.accounts.first_mut() {
                            a.1 = 2;
                        }
                    }
                }
            }
            let mut b = m.bytes();
            if malformed {
                let k = s.idx(b.len());
                b.truncate(k);
            }
            let key = mk(1000 + posted.len() as u64);
            svm.put(key, if owner_ok { P::core_bridge_id() } else { P::noop_program() }, posted_vaa(1, seq, chain, &em, &b));
            posted.push(Posted { key, chain, emitter: em, seq, msg: if malformed { None } else { Some(m) }, owner_ok });
        }
        let pi = if s.chance(1, 4) { s.idx(posted.len()) } else { posted.len() - 1 };
        let p = &posted[pi];
        // what the message asks for
        let rk = replay_key(p.chain, &p.emitter, p.seq);
        let mut rej: Vec<(&'static str, &'static [&'static str])> = vec![];
        if !p.owner_ok {
            rej.push(("message not posted by the core bridge", &["C23", "C18"]));
        }
        if p.chain != 1 || p.emitter != governance_emitter() {
            rej.push(("not the governance emitter", &["C23"]));
        }
        let mut want: Option<Instruction> = None;
        match &p.msg {
            None => rej.push(("malformed governance message", &["C23"])),
            Some(m) => {
                if m.module != module() {
                    rej.push(("wrong module", &["C23"]));
                }
                if m.action != 2 {
                    rej.push(("wrong action", &["C23"]));
                }
                if m.chain != 1 {
                    rej.push(("for another chain", &["C23"]));
                }
                if m.gov != P::governance() {
                    rej.push(("for another governance program", &["C23"]));
                }
                if m.accounts.iter().any(|a| a.1 > 1 || a.2 > 1) {
                    rej.push(("malformed account flags", &["C23"]));
                }
                want = Some(Instruction {
                    program_id: m.program,
                    accounts: m
                        .accounts
                        .iter()
                        .map(|(k, sg, w)| AccountMeta {
                            pubkey: if *k == sentinel(b"owner") {
                                governance_pda()
                            } else if *k == sentinel(b"payer") {
                                payer
                            } else {
                                *k
                            },
                            is_signer: *sg == 1,
                            is_writable: *w == 1,
                        })
                        .collect(),
                    data: m.data.clone(),
                });
            }
        }
        if done.contains(&(p.chain, p.emitter, p.seq)) {
            rej.push(("executed twice", &["C23"]));
        }
        // the caller's account list
        let mut rest: Vec<AccountMeta> = vec![];
        let mut missing = false;
        let other_signs = s.bool();
        if let Some(wi) = &want {
            for a in &wi.accounts {
                let sg = a.pubkey == other && other_signs;
                if s.chance(1, 24) {
                    missing = true;
                    continue;
                }
                rest.push(AccountMeta { pubkey: a.pubkey, is_signer: sg, is_writable: true });
                if a.is_signer && ![governance_pda(), payer].contains(&a.pubkey) && !sg {
                    rej.push(("names a signer that did not sign", &["C23", "C18"]));
                }
            }
            if missing {
                // it may still be there as one of the named accounts
                let have: Vec<Pubkey> = rest.iter().map(|a| a.pubkey).chain([payer, governance_pda(), p.key, rk, wi.program_id, system_program::id()]).collect();
                if wi.accounts.iter().any(|a| !have.contains(&a.pubkey)) {
                    rej.push(("named account not supplied", &["C23", "C18"]));
                }
                // a dropped signer may be missing too
                if wi.accounts.iter().any(|a| a.is_signer && ![governance_pda(), payer].contains(&a.pubkey) && !rest.iter().any(|r| r.pubkey == a.pubkey && r.is_signer)) {
                    rej.push(("names a signer that did not sign", &["C23", "C18"]));
                }
            }
            // the data is no instruction of that program
            if wi.program_id == P::governance() {
                rej.push(("target is the governance program", &["C23"]));
            }
            if wi.program_id == mk(77) {
                rej.push(("target is not a program", &["C23"]));
            }
            if wi.program_id == P::noop_program() || wi.program_id == system_program::id() {
                // the same account twice needs the union of privileges: handled by the runtime
            }
        }
        let program = want.as_ref().map(|w| w.program_id).unwrap_or(P::noop_program());
        let supplied = if program == P::governance() && s.bool() { P::noop_program() } else { program };
        let mut accs = vec![ws(payer), w(governance_pda()), r(p.key), r(supplied), w(rk), r(system_program::id())];
        let names = ["payer", "governance", "vaa", "program", "replay", "system_program"];
        let mut changed_slot = None;
        if s.chance(forge, 100) && rej.is_empty() {
            let i = 1 + s.idx(5);
            let k = match i {
                1 => *s.pick(&[other, pda(&[b"governance"], &P::ntt())]),
                2 => {
                    let k = mk(5000 + n);
                    let mut d = svm.data(&p.key).to_vec();
                    let o = svm.get(&p.key).map(|a| a.owner).unwrap_or_default();
                    if s.chance(1, 3) && d.len() >= 3 {
                        crate::layout::retype(&mut d, s);
                        svm.put(k, o, d);
                    } else {
                        svm.put(k, *s.pick(&[P::noop_program(), system_program::id()]), d);
                    }
                    k
                }
                // a different program account: the named program is then not supplied
                3 => P::token(),
                4 => replay_key(p.chain, &p.emitter, p.seq ^ 1),
                _ => P::noop_program(),
            };
            if k != accs[i].pubkey && !(i == 3 && rest.iter().any(|a| a.pubkey == program)) && !(i == 3 && program == system_program::id()) {
                accs[i].pubkey = k;
                changed_slot = Some(names[i]);
                rej.push(("substituted account", &["C23", "C18"]));
                obs.class("account substituted");
            }
        } else if s.chance(forge, 400) && rej.is_empty() {
            accs[0].is_signer = false;
            changed_slot = Some("payer signature");
            rej.push(("missing signature", &["C23", "C18"]));
            obs.class("required signature missing");
        }
        accs.extend(rest);
        let ixn = Instruction { program_id: P::governance(), accounts: accs, data: ix_data("governance", &[]) };
        obs.ops += 1;
        obs.txs += 1;
        let gov_before = svm.get(&governance_pda()).map(|a| a.lamports).unwrap_or(0);
        let res = svm.tx(&fee_payer, &[ixn]);
        obs.mixn(res.is_ok() as u64);
        for x in &rej {
            obs.mix(x.0);
        }
        let tags: Vec<&'static str> = {
            let mut t: Vec<&'static str> = rej.iter().flat_map(|r| r.1.iter().copied()).collect();
            t.sort();
            t.dedup();
            t
        };
        let why = rej.iter().map(|r| r.0).collect::<Vec<_>>().join(", ");
        match (res, rej.is_empty()) {
            (Err(_), false) => {
                obs.class("rejected");
                for x in &rej {
                    obs.class(x.0);
                }
                obs.log(|| format!("governance: rejected as it must be ({why})"));
            }
            (Ok(_), false) => {
                return Err(Fail {
                    site: format!("gov-accepted:{why}"),
                    tags,
                    msg: format!("governance executed {:?} although it must be rejected: {why} {changed_slot:?}", p.msg),
                })
            }
            (Err(e), true) => {
                return Err(fail("gov-refused".into(), &["C23"], format!("genuine governance message {:?} failed: {}", p.msg, e.0)));
            }
            (Ok(ok), true) => {
                let wi = want.unwrap();
                obs.class("governance executed");
                obs.log(|| format!("governance: executed {:?}", p.msg));
                done.insert((p.chain, p.emitter, p.seq));
                // the invocation, apart from the account creation for replay protection
                let calls: Vec<&Instruction> = ok
                    .cpis
                    .iter()
                    .filter(|i| !(i.program_id == system_program::id() && i.accounts.iter().any(|a| a.pubkey == rk)))
                    .collect();
                if calls.len() != 1 || *calls[0] != wi {
                    return Err(fail("gov-call".into(), &["C23"], format!("governance invoked {calls:?}, message names {wi:?}")));
                }
                if svm.get(&rk).map(|a| a.owner) != Some(P::governance()) {
                    return Err(fail("gov-replay".into(), &["C23"], "no replay protection recorded".into()));
                }
                let gov_after = svm.get(&governance_pda()).map(|a| a.lamports).unwrap_or(0);
                if wi.program_id == system_program::id() {
                    let amt = u64::from_le_bytes(wi.data[4..12].try_into().unwrap());
                    if gov_before - gov_after != amt {
                        return Err(fail("gov-effect".into(), &["C23"], format!("governance transfer moved {}", gov_before - gov_after)));
                    }
                    obs.class("governance moved its own funds");
                } else if gov_before != gov_after {
                    return Err(fail("gov-effect".into(), &["C23"], "governance authority lost funds".into()));
                }
            }
        }
        s.end();
    }
    Ok(())
}

/// byte encoding of governance messages
#[cfg(feature = "direct")]
pub fn codec(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    use anchor_lang::{AnchorDeserialize, AnchorSerialize};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use wormhole_governance::instructions::{Acc, GovernanceMessage};
    use wormhole_io::Writeable;
    let na = if s.chance(1, 8) { s.below(400) } else { s.below(8) };
    let accounts: Vec<(Pubkey, u8, u8)> = (0..na).map(|_| (Pubkey::new_from_array(s.bytes32()), s.below(2) as u8, s.below(2) as u8)).collect();
    let dl = if s.chance(1, 6) { s.below(65536) as usize } else { s.below(64) as usize };
    let data: Vec<u8> = (0..dl).map(|i| (i as u64 * 31 + na) as u8).collect();
    let m = Msg {
        module: module(),
        action: 2,
        chain: 1,
        gov: Pubkey::new_from_array(s.bytes32()),
        program: Pubkey::new_from_array(s.bytes32()),
        accounts,
        data,
    };
    let real = GovernanceMessage {
        governance_program_id: m.gov,
        program_id: m.program,
        accounts: m.accounts.iter().map(|a| Acc { pubkey: a.0, is_signer: a.1 == 1, is_writable: a.2 == 1 }).collect(),
        data: m.data.clone(),
    };
    obs.ops += 1;
    obs.mixn(crate::engine::hash_bytes(&m.bytes()));
    obs.nontrivial = true;
    obs.class("governance message round trip");
    let g = |f: &dyn Fn() -> Option<Vec<u8>>| catch_unwind(AssertUnwindSafe(f)).map_err(|_| fail("gov-codec-panic".into(), &["C23"], format!("{m:?}")));
    let enc = g(&|| {
        let mut b = vec![];
        AnchorSerialize::serialize(&real, &mut b).ok()?;
        Some(b)
    })?;
    if enc.as_deref() != Some(&m.bytes()[..]) {
        return Err(fail("gov-layout".into(), &["C23"], format!("{m:?} encodes to {enc:02x?}")));
    }
    {
        use wormhole_governance::instructions::GovernanceAction as A;
        use wormhole_io::Readable;
        for (i, a) in [A::Undefined, A::EvmCall, A::SolanaCall].into_iter().enumerate() {
            let mut b = vec![];
            let ok = a.write(&mut b).is_ok();
            if !ok || b != [i as u8] || a.written_size() != b.len() || A::read(&mut &b[..]).ok() != Some(a) {
                return Err(fail("gov-action".into(), &["C23"], format!("action {a:?} is written as {b:02x?}")));
            }
        }
        let n = 3 + s.below(253) as u8;
        if A::read(&mut &[n][..]).is_ok() {
            return Err(fail("gov-action".into(), &["C23"], format!("action number {n} is accepted")));
        }
    }
    let size = Writeable::written_size(&real);
    if size != m.bytes().len() {
        return Err(fail("gov-size".into(), &["C23"], format!("message of {} bytes reports size {size}", m.bytes().len())));
    }
    let dec = |b: &[u8]| -> Result<Option<GovernanceMessage>, Fail> {
        catch_unwind(AssertUnwindSafe(|| GovernanceMessage::deserialize(&mut &b[..]).ok()))
            .map_err(|_| fail("gov-codec-panic".into(), &["C23"], format!("decoding {b:02x?}")))
    };
    let b = m.bytes();
    if dec(&b)?.as_ref() != Some(&real) {
        return Err(fail("gov-round-trip".into(), &["C23"], format!("{m:?} does not decode to itself")));
    }
    let cut = s.idx(b.len());
    if dec(&b[..cut])?.is_some() {
        return Err(fail("gov-truncated".into(), &["C23"], format!("truncated message of {cut} bytes decodes")));
    }
    // any change in the header is refused
    let mut x = b.clone();
    let i = s.idx(35);
    x[i] ^= 1 << s.below(8);
    obs.class("governance header altered");
    if dec(&x)?.is_some() {
        return Err(fail("gov-header".into(), &["C23"], format!("message with altered header byte {i} decodes")));
    }
    let j = s.bytes(80);
    dec(&j)?;
    Ok(())
}
