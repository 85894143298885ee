//! Stateful generator: sets up a deployed manager and drives it with random histories of calls, near misses,
//! forged accounts, replays and time steps, every one compared with the model by `World::exec`.
use crate::engine::{Fail, Obs, Src};
use crate::layout::*;
use crate::model::*;
use crate::programs as P;
use crate::world::*;
use solana_sdk::{pubkey::Pubkey, system_program};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(usize)]
pub enum Op {
    Time,
    Transfer,
    TransferMiss,
    Inbound,
    Receive,
    Redeem,
    ReleaseIn,
    ReleaseOut,
    Mark,
    SetPeer,
    OutLimit,
    InLimit,
    Pause,
    Register,
    Nominate,
    Claim,
    SetXPeer,
    BroadcastId,
    BroadcastPeer,
    Lut,
    Poke,
    Replay,
    Forge,
    Reinit,
    Deposit,
    ClientTransfer,
    ClientRedeem,
    ClientRegister,
    ClientXPeer,
    ClientRead,
}
pub const N_OPS: usize = 30;

#[derive(Clone)]
pub struct Profile {
    pub w: [u32; N_OPS],
    pub mean: u64,
    /// weights of token kinds: spl, token-2022, hook, fee
    pub kinds: [u32; 4],
    /// 0 both, 1 locking only, 2 burning only
    pub modes: u8,
    /// chance in 100 that an attempt is deliberately wrong in one respect
    pub miss: u64,
    /// thresholds above one, transceivers disabled
    pub votes: bool,
    /// allow recipients without a token account, custody as recipient
    pub odd_recipients: bool,
    /// weights towards unusual decimals
    pub odd_decimals: bool,
    /// initialization itself is varied (wrong deployer, wrong mode...)
    pub vary_init: bool,
    /// through the TypeScript client
    pub client: bool,
    /// client transfers ask for a relay
    pub relay: bool,
}

impl Profile {
    pub fn base() -> Self {
        let mut w = [0u32; N_OPS];
        for (o, x) in [
            (Op::Time, 8),
            (Op::Transfer, 12),
            (Op::TransferMiss, 3),
            (Op::Inbound, 12),
            (Op::Receive, 3),
            (Op::Redeem, 8),
            (Op::ReleaseIn, 10),
            (Op::ReleaseOut, 8),
            (Op::Mark, 4),
            (Op::SetPeer, 2),
            (Op::OutLimit, 3),
            (Op::InLimit, 3),
            (Op::Pause, 2),
            (Op::Register, 1),
            (Op::Nominate, 1),
            (Op::Claim, 1),
            (Op::SetXPeer, 1),
            (Op::BroadcastId, 1),
            (Op::BroadcastPeer, 1),
            (Op::Lut, 0),
            (Op::Poke, 1),
            (Op::Replay, 4),
            (Op::Forge, 3),
            (Op::Reinit, 0),
            (Op::Deposit, 1),
        ] {
            w[o as usize] = x;
        }
        Profile {
            w,
            mean: 22,
            kinds: [6, 3, 1, 0],
            modes: 0,
            miss: 12,
            votes: false,
            odd_recipients: true,
            odd_decimals: false,
            vary_init: false,
            client: false,
            relay: false,
        }
    }
    pub fn set(mut self, l: &[(Op, u32)]) -> Self {
        for (o, x) in l {
            self.w[*o as usize] = *x;
        }
        self
    }
    pub fn only(mut self, l: &[(Op, u32)]) -> Self {
        self.w = [0; N_OPS];
        self.set(l)
    }
}

pub const ALL_OPS: [Op; N_OPS] = [
    Op::Time,
    Op::Transfer,
    Op::TransferMiss,
    Op::Inbound,
    Op::Receive,
    Op::Redeem,
    Op::ReleaseIn,
    Op::ReleaseOut,
    Op::Mark,
    Op::SetPeer,
    Op::OutLimit,
    Op::InLimit,
    Op::Pause,
    Op::Register,
    Op::Nominate,
    Op::Claim,
    Op::SetXPeer,
    Op::BroadcastId,
    Op::BroadcastPeer,
    Op::Lut,
    Op::Poke,
    Op::Replay,
    Op::Forge,
    Op::Reinit,
    Op::Deposit,
    Op::ClientTransfer,
    Op::ClientRedeem,
    Op::ClientRegister,
    Op::ClientXPeer,
    Op::ClientRead,
];

pub struct G<'a> {
    pub w: World,
    pub p: &'a Profile,
    pub people: Vec<Pubkey>,
    pub chains: Vec<u16>,
    pub vaas: Vec<(Pubkey, Pubkey)>,
    pub known: Vec<(u16, Xfer)>,
    pub hist: Vec<(Call, Mods)>,
    pub unit: u64,
    pub n_msg: u64,
    pub n_extra: u8,
    /// one deployment address on every chain, as is usual
    pub same_addr: bool,
}

pub fn progs() -> [Pubkey; 2] {
    [P::ntt(), P::standalone()]
}

fn success_class(c: &Call, d: &Did) -> &'static str {
    match c {
        Call::Transfer { .. } if d.delayed => "outbound transfer queued for 24 h",
        Call::Transfer { .. } => "outbound transfer within capacity",
        Call::Redeem { .. } if d.vote_only => "vote recorded",
        Call::Redeem { .. } if d.delayed => "inbound approved with delay",
        Call::Redeem { .. } => "inbound approved",
        Call::ReleaseIn { .. } if d.noop => "inbound release did nothing",
        Call::ReleaseIn { .. } => "inbound paid",
        Call::ReleaseOut { .. } if d.noop => "publication did nothing",
        Call::ReleaseOut { prog, .. } if *prog == P::standalone() => {
            "published by standalone transceiver"
        }
        Call::ReleaseOut { .. } => "published",
        Call::Mark { .. } if d.noop => "mark did nothing",
        Call::Mark { .. } => "marked",
        Call::Receive { prog, .. } if *prog == P::standalone() => {
            "received by standalone transceiver"
        }
        Call::Receive { .. } => "received",
        Call::SetXPeer { .. } => "transceiver peer set",
        Call::SetPeer { .. } => "peer set",
        Call::SetOutLimit { .. } => "outbound limit set",
        Call::SetInLimit { .. } => "inbound limit set",
        Call::SetPaused { paused: true, .. } => "paused by owner",
        Call::SetPaused { .. } => "unpaused by owner",
        Call::Nominate { one_step: true, .. } => "ownership transferred in one step",
        Call::Nominate { .. } => "owner nominated",
        Call::Claim { .. } => "ownership claimed",
        Call::Register { .. } => "transceiver registered",
        Call::Initialize { .. } => "initialized",
        Call::InitLut { .. } => "lookup table created",
        Call::BroadcastId { .. } => "identity broadcast",
        Call::BroadcastPeer { .. } => "peer broadcast",
    }
}

/// keys whose bytes look like something else
fn styled(k: Pubkey, style: usize) -> Pubkey {
    let mut b = k.to_bytes();
    match style {
        1 => b[..12].fill(0),
        2 => b[..2].fill(0),
        3 => b[24..].fill(0),
        4 => {
            b[..10].fill(0xff);
            b[20..].fill(0xff);
        }
        _ => {}
    }
    Pubkey::new_from_array(b)
}

impl<'a> G<'a> {
    /// 32 bytes, plain or looking like something else
    fn b32(&self, s: &mut Src) -> B32 {
        match s.below(8) {
            0 => [0; 32],
            1 => [0xff; 32],
            2 => {
                let mut b = [0; 32];
                b[12..].copy_from_slice(&s.bytes32()[12..]);
                b
            }
            3 => {
                let mut b = [0; 32];
                b[s.idx(32)] = 1 + s.below(255) as u8;
                b
            }
            4 => self.person(s).to_bytes(),
            5 => s.pick(&[P::ntt(), P::standalone(), token_authority(), config(), self.w.m.mint]).to_bytes(),
            _ => s.bytes32(),
        }
    }
    fn unsignable(&self) -> Vec<Pubkey> {
        vec![upgrade_lock(), config(), token_authority(), Pubkey::default(), system_program::id(), P::ntt(), self.w.m.mint, crate::gov::governance_pda()]
    }
    pub fn owner(&self) -> Pubkey {
        self.w.m.cfg().map(|c| c.owner).unwrap_or(self.people[0])
    }
    pub fn payer(&self) -> Pubkey {
        self.people[1]
    }
    /// run one call
    pub fn run(&mut self, c: Call, mods: Mods, obs: &mut Obs) -> Result<Option<Did>, Fail> {
        obs.ops += 1;
        obs.mix(c.name());
        let had = mods.none();
        let r = self.w.exec(&[(c.clone(), mods.clone())], obs)?;
        obs.mixn(r.is_some() as u64);
        if had {
            if self.hist.len() > 40 {
                self.hist.remove(0);
            }
            self.hist.push((c.clone(), mods));
        }
        Ok(r.map(|v| {
            obs.class(success_class(&c, &v[0]));
            if self.w.m.cfg().map(|c| c.paused).unwrap_or(false) {
                obs.class("succeeded while paused");
            }
            v[0]
        }))
    }
    pub fn ok(&mut self, c: Call, obs: &mut Obs) -> Result<Option<Did>, Fail> {
        self.run(c, Mods::default(), obs)
    }
    pub fn ok_many(&mut self, cs: Vec<Call>, obs: &mut Obs) -> Result<bool, Fail> {
        obs.ops += cs.len() as u64;
        for c in &cs {
            obs.mix(c.name());
        }
        let v: Vec<(Call, Mods)> = cs.iter().map(|c| (c.clone(), Mods::default())).collect();
        let r = self.w.exec(&v, obs)?;
        obs.mixn(r.is_some() as u64);
        if let Some(d) = &r {
            obs.class("several calls in one transaction");
            for (c, d) in cs.iter().zip(d) {
                obs.class(success_class(c, d));
            }
        }
        Ok(r.is_some())
    }

    fn keys_of(&self, f: impl Fn(&St) -> bool) -> Vec<Pubkey> {
        self.w
            .m
            .st
            .iter()
            .filter(|(_, s)| f(s))
            .map(|(k, _)| *k)
            .collect()
    }
    pub fn outs(&self) -> Vec<Pubkey> {
        self.keys_of(|s| matches!(s, St::Out(_)))
    }
    pub fn ins(&self) -> Vec<Pubkey> {
        self.keys_of(|s| matches!(s, St::In(..)))
    }
    pub fn msgs(&self) -> Vec<Pubkey> {
        self.keys_of(|s| matches!(s, St::Msg(..)))
    }
    fn person(&self, s: &mut Src) -> Pubkey {
        *s.pick(&self.people)
    }
    /// a valid owner most of the time
    fn signer(&self, s: &mut Src) -> Pubkey {
        if s.chance(self.p.miss.max(6), 100) {
            let n = self.w.m.cfg().and_then(|c| c.pending);
            match n {
                Some(n) if s.bool() && !self.unsignable().contains(&n) => n,
                _ => self.person(s),
            }
        } else {
            self.owner()
        }
    }
    fn transceivers() -> Vec<Pubkey> {
        let mut v = progs().to_vec();
        v.extend((0..P::N_FAKE).map(P::fake_transceiver));
        v
    }

    /// amounts around the interesting boundaries
    fn amount(&self, s: &mut Src, caps: &[u64], bal: u64, unit: u64) -> u64 {
        let j = |s: &mut Src, v: u64| match s.below(6) {
            0 | 1 => v,
            2 => v.saturating_add(1),
            3 => v.saturating_sub(1),
            4 => v.saturating_add(unit),
            _ => v.saturating_sub(unit),
        };
        match s.weighted(&[5, 6, 3, 2, 3, 1, 2]) {
            0 => (1 + s.below(1000)).saturating_mul(unit.max(self.unit / 1000)),
            1 => {
                let c = *s.pick(caps);
                j(s, c)
            }
            2 => j(s, bal),
            3 => s.below(unit.saturating_mul(3).max(3)),
            4 => {
                let c = *s.pick(caps);
                s.range(0, c.min(bal))
            }
            5 => s.mag64(),
            _ => s.range(0, bal),
        }
    }

    fn limit(&self, s: &mut Src) -> u64 {
        match s.weighted(&[6, 2, 1, 1, 1, 2]) {
            0 => (1 + s.below(200)).saturating_mul(self.unit),
            1 => s.below(self.unit.max(2)),
            2 => 0,
            3 => u64::MAX,
            4 => s.mag64(),
            _ => (1 + s.below(20)).saturating_mul(86_400),
        }
    }

    pub fn new(s: &mut Src, obs: &mut Obs, p: &'a Profile) -> Result<Option<G<'a>>, Fail> {
        s.begin();
        let salt = s.below(16);
        let kind = match s.weighted(&p.kinds) {
            0 => TokKind::Spl,
            1 => TokKind::T22,
            2 => TokKind::Hook,
            _ => TokKind::Fee {
                bps: *s.pick(&[0u16, 1, 100, 5000]),
                max: *s.pick(&[u64::MAX, 0, 5]),
            },
        };
        let dec = if p.odd_decimals {
            match s.below(4) {
                0 => *s.pick(&[9u8, 8, 6, 18, 0, 2, 7, 10]),
                1 => s.below(20) as u8,
                2 => 8 + s.below(20) as u8,
                _ => *s.pick(&[19u8, 20, 26, 27, 28, 29, 255, 12, 16]),
            }
        } else {
            *s.pick(&[9u8, 8, 6, 9, 10, 0, 18])
        };
        let mode = match p.modes {
            1 => 0,
            2 => 1,
            _ => s.below(2) as u8,
        };
        let t0 = match s.weighted(&[8, 1, 1]) {
            0 => 1_700_000_000,
            1 => 50,
            _ => 1 << 40,
        };
        let same_addr = s.chance(1, 3);
        let unit = 10u64.pow((dec as u32).min(9));
        let bal = match s.weighted(&[5, 2, 1, 1]) {
            0 => 1000u64.saturating_mul(unit),
            1 => s.below(1 << 20),
            2 => u64::MAX / 8,
            _ => 1 << s.below(62),
        };
        let (init_miss, mode_sent) = if p.vary_init && s.bool() {
            (s.below(7), mode)
        } else {
            (9, mode)
        };
        // a person who deploys
        let extra_supply = s.below(2) * unit;
        let mut w0 = World::new(salt, kind, dec, None, None, t0, 0);
        let style = s.weighted(&[6, 1, 1, 1, 1]);
        let people: Vec<Pubkey> = (0..6).map(|_| styled(w0.fresh(), style)).collect();
        drop(w0);
        let authority = if mode == 1 {
            Some(token_authority())
        } else {
            // in locking mode it does not matter who may mint
            match s.weighted(&[4, 1, 1]) {
                0 => Some(people[5]),
                1 => Some(token_authority()),
                _ => None,
            }
        };
        let authority = match init_miss {
            1 => Some(people[5]),
            2 => None,
            _ => authority,
        };
        let upg = match init_miss {
            3 => None,
            4 => Some(people[2]),
            _ => Some(people[0]),
        };
        let mut w = World::new(salt, kind, dec, authority, upg, t0, extra_supply);
        let again: Vec<Pubkey> = (0..6).map(|_| styled(w.fresh(), style)).collect();
        assert_eq!(again, people);
        for k in &people {
            w.svm.airdrop(*k, 1 << 50);
        }
        w.set_fee(*s.pick(&[100u64, 100, 0, 1, 5_000_000]));
        let chains = match s.weighted(&[5, 1, 1, 1, 1]) {
            0 => vec![2, 3, 4, 10002],
            1 => vec![2, 258, 512, 3],
            2 => vec![65535, 255, 65280, 0],
            3 => vec![1, 256, 30, 2],
            _ => {
                let a = s.below(65536) as u16;
                vec![a, a.swap_bytes(), a ^ 1, a.wrapping_add(256)]
            }
        };
        let mut g = G {
            w,
            p,
            people: people.clone(),
            chains,
            vaas: vec![],
            known: vec![],
            hist: vec![],
            unit: unit.max(1),
            n_msg: 0,
            n_extra: 0,
            same_addr,
        };
        let chain = match s.below(10) {
            0 => s.below(65536) as u16,
            _ => *s.pick(&[1u16, 1, 1, 30, 65535, 0, 256]),
        };
        let limit = g.limit(s);
        s.end();
        g.w.client = p.client;
        if s.chance(1, 8) {
            g.w.prefund = *s.pick(&[1u64, 890_880, 2_000_000, 50_000_000_000]);
        }
        // the custody account may already exist
        if s.chance(1, 6) {
            let d = s.below(2) * 77;
            g.w.make_ata(token_authority(), d);
            *g.w.m.supply() += d;
        }
        let mint = g.w.m.mint;
        let init = Call::Initialize {
            payer: if p.client && s.bool() { people[0] } else { people[1] },
            deployer: people[0],
            mint,
            chain,
            limit,
            mode: mode_sent,
        };
        if p.vary_init {
            obs.class("initialization varied");
            // calls before initialization
            let c = Call::SetPaused {
                signer: people[0],
                paused: true,
            };
            g.ok(c, obs)?;
            if s.bool() {
                let c = Call::Initialize {
                    payer: people[1],
                    deployer: people[2],
                    mint,
                    chain,
                    limit,
                    mode,
                };
                g.ok(c, obs)?;
            }
            if s.bool() {
                g.forge(init.clone(), s, obs)?;
            }
            if s.chance(1, 4) {
                let c = Call::Initialize {
                    payer: people[1],
                    deployer: people[0],
                    mint,
                    chain,
                    limit,
                    mode: 2 + s.below(254) as u8,
                };
                g.ok(c, obs)?;
            }
        }
        if g.ok(init.clone(), obs)?.is_none() {
            // not initialized: nothing must work
            let v = vec![
                Call::SetPaused {
                    signer: people[0],
                    paused: true,
                },
                Call::Claim { who: people[0] },
                Call::SetOutLimit {
                    signer: people[0],
                    limit: 5,
                },
                Call::SetPeer {
                    payer: people[1],
                    signer: people[0],
                    chain: 2,
                    addr: [1; 32],
                    limit: 4,
                    decimals: 6,
                },
            ];
            for c in v {
                g.ok(c, obs)?;
            }
            return Ok(None);
        }
        // people and their token accounts
        for i in 2..5 {
            g.w.make_ata(people[i], bal);
            *g.w.m.supply() = g.w.m.supply().saturating_add(bal);
        }
        let aux = g.w.make_aux_tok(people[2], bal);
        if s.chance(1, 3) {
            // accounts somebody else may close
            let k = if s.bool() { aux } else { ata(&people[2 + s.idx(3)], &g.w.m.mint, &g.w.m.token_program) };
            let closer = *s.pick(&people);
            let d = &mut g.w.svm.db.get_mut(&k).unwrap().data;
            d[129..133].copy_from_slice(&1u32.to_le_bytes());
            d[133..165].copy_from_slice(closer.as_ref());
        }
        *g.w.m.supply() = g.w.m.supply().saturating_add(bal);
        let cust = g.w.m.cfg().unwrap().custody;
        if s.chance(2, 3) {
            g.w.m.tok_mut(&cust).amount += bal / 2;
            *g.w.m.supply() = g.w.m.supply().saturating_add(bal / 2);
            g.w.poke_tok(&cust);
        }
        g.sync_supply();
        let np = 1 + s.below(3) as usize;
        for i in 0..np {
            let limit = g.limit(s);
            let decimals = if p.odd_decimals {
                match s.below(3) {
                    0 => *s.pick(&[8u8, 6, 18, 9]),
                    1 => s.below(12) as u8,
                    _ => s.below(256) as u8,
                }
            } else {
                *s.pick(&[8u8, 18, 6, 9, 4])
            };
            let ch = g.chains[i];
            let c = Call::SetPeer {
                payer: people[1],
                signer: people[0],
                chain: ch,
                addr: g.mgr_addr(ch, 0),
                limit,
                decimals,
            };
            g.ok(c, obs)?;
        }
        let mut regs = vec![P::ntt()];
        if p.votes || s.chance(3, 5) {
            regs.push(P::standalone());
        }
        for i in 0..P::N_FAKE {
            if s.chance(if p.votes { 3 } else { 1 }, 4) {
                regs.push(P::fake_transceiver(i));
            }
        }
        if s.chance(1, 16) {
            regs.remove(0);
        }
        if s.bool() {
            regs.reverse();
        }
        for t in regs {
            let c = Call::Register {
                payer: people[1],
                signer: people[0],
                transceiver: t,
            };
            g.ok(c, obs)?;
        }
        for prog in progs() {
            for i in 0..np {
                if s.chance(15, 16) {
                    let ch = g.chains[i];
                    let c = Call::SetXPeer {
                        prog,
                        payer: people[1],
                        signer: people[0],
                        chain: ch,
                        addr: g.x_addr(&prog, ch),
                    };
                    g.ok(c, obs)?;
                }
            }
        }
        if p.votes {
            g.poke(s);
        }
        Ok(Some(g))
    }

    fn sync_supply(&mut self) {
        let s = *self.w.m.supply();
        let m = self.w.m.mint;
        self.w.svm.db.get_mut(&m).unwrap().data[36..44].copy_from_slice(&s.to_le_bytes());
    }

    fn mgr_addr(&self, ch: u16, v: u8) -> B32 {
        let mut a = [0xA0; 32];
        if !self.same_addr {
            a[30..].copy_from_slice(&ch.to_be_bytes());
        }
        a[0] = v;
        a
    }
    fn x_addr(&self, p: &Pubkey, ch: u16) -> B32 {
        let mut a = [if *p == P::ntt() { 0xB0 } else { 0xB1 }; 32];
        if !self.same_addr {
            a[30..].copy_from_slice(&ch.to_be_bytes());
        }
        a
    }

    /// settings only storage can hold at this version: thresholds above one, disabled transceivers
    fn poke(&mut self, s: &mut Src) {
        let c = self.w.m.cfg_mut();
        if s.bool() {
            c.threshold = if self.p.votes { *s.pick(&[2u8, 1, 3, 2, 4, 0, 2, 1, 3, 2, 1, 5, 8, 9, 128, 255]) } else { *s.pick(&[1u8, 1, 1, 2, 0]) };
        }
        if s.bool() {
            let n = c.next_id.min(127);
            let mut e = 0u128;
            for i in 0..n {
                if s.chance(3, 4) {
                    e |= 1 << i;
                }
            }
            c.enabled = e;
        } else {
            let n = c.next_id;
            c.enabled = if n >= 128 {
                u128::MAX
            } else {
                (1u128 << n) - 1
            };
        }
        self.w.poke_cfg();
    }

    fn new_xfer(&mut self, s: &mut Src) -> (u16, Xfer) {
        // a variant of an earlier message, or a new one
        if !self.known.is_empty() && s.chance(1, 3) {
            let (mut ch, mut x) = s.pick(&self.known).clone();
            match s.below(10) {
                0 | 1 => {}
                2 => x.amount = x.amount.wrapping_add(1),
                3 => x.to = self.person(s).to_bytes(),
                4 => x.id[31] ^= 1,
                5 => x.sender[0] ^= 1,
                6 => x.token[5] ^= 1,
                7 => x.decimals = x.decimals.wrapping_add(1),
                8 => x.to_chain ^= 1,
                _ => {
                    ch = *s.pick(&self.chains);
                    if s.bool() {
                        x.source_mgr = self.w.m.peer(ch).map(|p| p.0).unwrap_or([1; 32]);
                    }
                }
            }
            return (ch, x);
        }
        let ch = if s.chance(1, 12) {
            *s.pick(&self.chains)
        } else {
            let v: Vec<u16> = self
                .chains
                .iter()
                .copied()
                .filter(|c| self.w.m.peer(*c).is_some())
                .collect();
            if v.is_empty() {
                2
            } else {
                *s.pick(&v)
            }
        };
        let src = self.w.m.peer(ch).map(|p| p.0).unwrap_or([1; 32]);
        let local = self.w.m.decimals();
        let pd = self.w.m.peer(ch).map(|p| p.1).unwrap_or(8);
        let decimals = if s.chance(if self.p.odd_decimals { 1 } else { 0 } + 1, 8) {
            if self.p.odd_decimals {
                s.below(256) as u8
            } else {
                *s.pick(&[8u8, 0, 18, 9, 12])
            }
        } else {
            8.min(local).min(pd)
        };
        let caps: Vec<u64> = {
            let mut v = vec![];
            if let Some(r) = self.w.m.in_rl(ch) {
                let c = r.at(self.w.m.now);
                v.push(scale(c, local, decimals).unwrap_or(c));
            }
            let cust = self
                .w
                .m
                .tok(&self.w.m.cfg().unwrap().custody)
                .unwrap()
                .amount;
            v.push(scale(cust, local, decimals).unwrap_or(cust));
            v
        };
        let big = self.unit.saturating_mul(1000);
        let b = scale(big, local.min(9), decimals).unwrap_or(big);
        let amount = self.amount(s, &caps, b, 1);
        let to = if self.p.odd_recipients && s.chance(1, 8) {
            match s.below(5) {
                0 => token_authority().to_bytes(),
                1 => self.b32(s),
                2 => P::ntt().to_bytes(),
                3 => self.people[1].to_bytes(),
                _ => self.people[0].to_bytes(),
            }
        } else {
            self.people[2 + s.idx(3)].to_bytes()
        };
        self.n_msg += 1;
        let mut id = [0u8; 32];
        id[24..].copy_from_slice(&self.n_msg.to_be_bytes());
        if s.chance(1, 5) {
            id[31] = s.below(4) as u8;
        }
        id[0] = s.below(3) as u8;
        if s.chance(1, 8) {
            id = self.b32(s);
        }
        let mut sender = [0xC0; 32];
        sender[31] = s.below(3) as u8;
        if s.chance(1, 6) {
            sender = self.b32(s);
        }
        let token = if s.chance(1, 6) { self.b32(s) } else { [0xD0; 32] };
        let mut x = Xfer {
            source_mgr: src,
            recipient_mgr: P::ntt().to_bytes(),
            id,
            sender,
            amount,
            decimals,
            token,
            to,
            to_chain: self.w.m.cfg().unwrap().chain,
        };
        if s.chance(self.p.miss, 100) {
            match s.below(8) {
                6 => x.recipient_mgr = *s.pick(&[[0; 32], x.source_mgr, token_authority().to_bytes(), config().to_bytes()]),
                7 => x.source_mgr = *s.pick(&[[0; 32], x.recipient_mgr, P::standalone().to_bytes()]),
                0 => {
                    let o = *s.pick(&self.chains);
                    x.source_mgr = self.w.m.peer(o).map(|p| p.0).unwrap_or([2; 32]);
                }
                1 => x.source_mgr[s.idx(32)] ^= 1 << s.below(8),
                2 => x.recipient_mgr[s.idx(32)] ^= 1 << s.below(8),
                3 => x.recipient_mgr = P::standalone().to_bytes(),
                4 => x.to_chain = *s.pick(&[0u16, 1, 2, 256, 30]),
                _ => x.source_mgr = P::ntt().to_bytes(),
            }
        }
        (ch, x)
    }

    fn attest_vaa(&mut self, s: &mut Src, prog: &Pubkey, ch: u16, x: &Xfer) -> Pubkey {
        let mut chain = ch;
        let mut em = self.w.m.xpeer(prog, ch).unwrap_or(self.x_addr(prog, ch));
        let tp = if s.chance(1, 8) { s.bytes(40) } else { vec![] };
        let mut payload = x.wire(&tp);
        let mut body = Some(x.clone());
        if s.chance(self.p.miss, 100) {
            match s.below(7) {
                0 => chain = *s.pick(&self.chains),
                1 => em[s.idx(32)] ^= 1 << s.below(8),
                2 => {
                    em = self.x_addr(
                        &if *prog == P::ntt() {
                            P::standalone()
                        } else {
                            P::ntt()
                        },
                        ch,
                    )
                }
                3 => {
                    let o = *s.pick(&self.chains);
                    em = self.x_addr(prog, o);
                }
                4 => {
                    let n = s.idx(payload.len());
                    payload.truncate(n);
                    body = None;
                }
                5 => {
                    payload[s.idx(4)] ^= 1 << s.below(8);
                    body = None;
                }
                _ => {
                    // the transfer prefix, after the transceiver header and manager header
                    payload[4 + 64 + 2 + 66 + s.idx(4)] ^= 1 << s.below(8);
                    body = None;
                }
            }
        }
        let seq = s.below(4);
        let k = self.w.put_vaa(
            Vaa {
                chain,
                emitter: em,
                body,
            },
            &payload,
            seq,
        );
        self.vaas.push((k, *prog));
        k
    }

    fn redeem_of(&self, msg: Pubkey) -> Call {
        let t = match self.w.m.st.get(&msg) {
            Some(St::Msg(o, _, _)) => *o,
            _ => P::ntt(),
        };
        Call::Redeem {
            payer: self.payer(),
            msg,
            transceiver: t,
        }
    }
    fn release_in(&self, s: &mut Src, item: Pubkey) -> Call {
        let burning = self.w.m.cfg().unwrap().mode == 1;
        let wrong = s.chance(self.p.miss, 400);
        Call::ReleaseIn {
            payer: self.payer(),
            item,
            mint: burning != wrong,
            revert: s.bool(),
        }
    }

    /// a new or varied message through one of the transceivers, then possibly on to payment
    fn inbound(&mut self, s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
        let (ch, x) = self.new_xfer(s);
        if self.known.len() > 12 {
            self.known.remove(0);
        }
        self.known.push((ch, x.clone()));
        let ways = 1 + if self.p.votes { s.below(3) } else { 0 };
        for _ in 0..ways {
            let via = s.weighted(&[5, 3, 4]);
            // mostly through a registered transceiver
            let fakes: Vec<u8> = (0..P::N_FAKE).filter(|i| self.w.m.reg(&P::fake_transceiver(*i)).is_some()).collect();
            let strict = !s.chance(1, 8);
            let via = match via {
                1 if strict && self.w.m.reg(&P::standalone()).is_none() => 0,
                2 if strict && fakes.is_empty() => 0,
                v => v,
            };
            let msg = if via < 2 {
                let prog = progs()[via];
                let v = self.attest_vaa(s, &prog, ch, &x);
                let vchain = self.w.m.vaas[&v].chain;
                let k = xmsg(&prog, vchain, &x.id);
                let c = Call::Receive {
                    prog,
                    payer: self.payer(),
                    vaa: v,
                };
                if s.chance(1, 10) && self.w.m.cfg().unwrap().threshold == 1 {
                    // everything in one transaction
                    let mut calls = vec![c];
                    let t = P::ntt();
                    let _ = t;
                    calls.push(Call::Redeem {
                        payer: self.payer(),
                        msg: k,
                        transceiver: prog,
                    });
                    let item = inbox_item(&x.digest(ch));
                    if self.p.kinds[3] == 0 {
                        calls.push(self.release_in(s, item));
                    }
                    self.ok_many(calls, obs)?;
                    continue;
                }
                self.ok(c, obs)?;
                k
            } else {
                let t = if strict { *s.pick(&fakes) } else { s.below(P::N_FAKE as u64) as u8 };
                let t = P::fake_transceiver(t);
                self.w.put_msg(t, ch, &x)
            };
            if s.chance(3, 4) {
                let c = self.redeem_of(msg);
                let c2 = if s.chance(self.p.miss, 200) {
                    match c {
                        Call::Redeem { payer, msg, .. } => Call::Redeem {
                            payer,
                            msg,
                            transceiver: *s.pick(&Self::transceivers()),
                        },
                        c => c,
                    }
                } else {
                    c
                };
                let r = self.ok(c2, obs)?;
                if r.is_some() && s.chance(3, 5) && !self.fee_kind() {
                    let h = match self.w.m.st.get(&msg) {
                        Some(St::Msg(_, c, x)) => x.digest(*c),
                        _ => continue,
                    };
                    let c = self.release_in(s, inbox_item(&h));
                    self.ok(c, obs)?;
                }
            }
        }
        Ok(())
    }
    fn fee_kind(&self) -> bool {
        matches!(self.w.m.kind, TokKind::Fee { .. })
    }

    fn transfer_req(&self, s: &mut Src, from: &Pubkey) -> Req {
        let chain = if s.chance(self.p.miss, 300) {
            *s.pick(&[5u16, 2, 3, 4, 512, 768])
        } else {
            let v: Vec<u16> = self
                .chains
                .iter()
                .copied()
                .filter(|c| self.w.m.peer(*c).is_some())
                .collect();
            if v.is_empty() {
                2
            } else {
                *s.pick(&v)
            }
        };
        let now = self.w.m.now;
        let mut caps = vec![self.w.m.out_rl().unwrap().at(now)];
        if let Some(r) = self.w.m.in_rl(chain) {
            caps.push(r.limit - r.at(now));
            caps.push(r.limit);
        }
        let local = self.w.m.decimals();
        let pd = self.w.m.peer(chain).map(|p| p.1).unwrap_or(8);
        let wu = 10u64
            .checked_pow(local.saturating_sub(8.min(local).min(pd)) as u32)
            .unwrap_or(u64::MAX);
        let bal = self.w.m.tok(from).map(|t| t.amount).unwrap_or(0);
        let amount = self.amount(s, &caps, bal, wu);
        let to = match s.below(4) {
            0 => [0xE1; 32],
            3 => self.b32(s),
            1 => {
                let mut t = [0u8; 32];
                t[31] = s.below(4) as u8;
                t
            }
            _ => [0; 32],
        };
        Req {
            amount,
            chain,
            to,
            queue: s.bool(),
        }
    }
    fn sources(&self) -> Vec<Pubkey> {
        self.keys_of(|x| matches!(x, St::Tok(t) if self.people.contains(&t.owner)))
    }
    fn transfer(&mut self, s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
        let src = self.sources();
        let from = *s.pick(&src);
        let req = self.transfer_req(s, &from);
        let o = self.w.m.tok(&from).unwrap().owner;
        let session = session_authority(&o, &req);
        let allowance = match s.weighted(&[7, 2, 1, 1]) {
            0 => req.amount,
            1 => u64::MAX,
            2 => req.amount.saturating_sub(1),
            _ => req.amount.saturating_add(5),
        };
        self.w.approve(&from, session, allowance);
        let outbox = if s.chance(1, 40) {
            let v = self.outs();
            if v.is_empty() {
                self.w.fresh()
            } else {
                *s.pick(&v)
            }
        } else {
            self.w.fresh()
        };
        let mode = self.w.m.cfg().unwrap().mode == 1;
        let burn = mode != s.chance(self.p.miss, 500);
        let mut mods = Mods::default();
        if self.w.m.kind == TokKind::Hook && s.chance(1, 4) {
            mods.hook = *s.pick(&[
                HookAccts::Missing,
                HookAccts::WrongDummy,
                HookAccts::WrongCounter,
                HookAccts::Padded,
                HookAccts::Reversed,
            ]);
        }
        let c = Call::Transfer {
            payer: self.payer(),
            from,
            burn,
            req,
            outbox,
            session,
        };
        let r = self.run(c, mods, obs)?;
        if r.is_some() && s.chance(1, 4) {
            let prog = *s.pick(&progs());
            let c = Call::ReleaseOut {
                prog,
                payer: self.payer(),
                outbox,
                revert: s.bool(),
            };
            self.ok(c, obs)?;
        }
        Ok(())
    }
    /// an approval exists, but for something slightly different
    fn transfer_miss(&mut self, s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
        let src = self.sources();
        let from = *s.pick(&src);
        let bal = self.w.m.tok(&from).unwrap().amount;
        let mut req = self.transfer_req(s, &from);
        if bal > 0 {
            req.amount = req.amount % bal.max(1) + 1;
        }
        req.queue = true;
        let o = self.w.m.tok(&from).unwrap().owner;
        let approved = session_authority(&o, &req);
        let mut call_req = req;
        let mut session_is_approved = s.bool();
        let mut session = None;
        match s.below(8) {
            0 => call_req.amount = req.amount.saturating_sub(1 + s.below(3)),
            1 => call_req.amount = req.amount.saturating_add(1),
            2 => call_req.chain = *s.pick(&self.chains),
            3 => call_req.to[s.idx(32)] ^= 1 << s.below(8),
            4 => call_req.queue = !req.queue,
            5 => {
                // another owner's approval for the same request
                let other = self.person(s);
                session = Some(session_authority(&other, &req));
            }
            6 => {
                session = Some(*s.pick(&[token_authority(), o, config()]));
                session_is_approved = false;
            }
            _ => call_req.chain = call_req.chain.swap_bytes(),
        }
        let delegate = match s.below(4) {
            0 => session.unwrap_or(approved),
            _ => approved,
        };
        self.w.approve(&from, delegate, u64::MAX);
        let session = session.unwrap_or(if session_is_approved {
            approved
        } else {
            session_authority(&o, &call_req)
        });
        let outbox = self.w.fresh();
        let burn = self.w.m.cfg().unwrap().mode == 1;
        obs.class("transfer under an approval for something else");
        let c = Call::Transfer {
            payer: self.payer(),
            from,
            burn,
            req: call_req,
            outbox,
            session,
        };
        self.ok(c, obs)?;
        Ok(())
    }

    fn time(&mut self, s: &mut Src, obs: &mut Obs) {
        let now = self.w.m.now;
        let mut targets = vec![];
        for st in self.w.m.st.values() {
            match st {
                St::Out(o) if o.release > now => targets.push(o.release),
                St::In(_, i) => {
                    if let Status::After(t) = i.status {
                        if t > now {
                            targets.push(t)
                        }
                    }
                }
                _ => {}
            }
        }
        let t = match s.weighted(&[12, 20, 12, 8, 4, 1]) {
            5 => now + s.below(1 << 34) as i64,
            0 => now + s.below(600) as i64,
            1 if !targets.is_empty() => {
                let t = *s.pick(&targets);
                (t + s.below(3) as i64 - 1).max(now)
            }
            2 => now + s.below(DAY as u64) as i64,
            3 => now + DAY + s.below(3) as i64 - 1,
            _ => now + s.below(20 * DAY as u64) as i64,
        };
        obs.mixn(7);
        obs.log(|| format!("time +{}", t - now));
        self.w.set_time(t);
    }

    pub fn step(&mut self, s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
        let op = ALL_OPS[s.weighted(&self.p.w)];
        self.step_op(op, s, obs)
    }

    fn gen_call(&mut self, op: Op, s: &mut Src) -> Option<Call> {
        let payer = self.payer();
        Some(match op {
            Op::Receive => {
                if self.vaas.is_empty() {
                    return None;
                }
                let (v, p) = *s.pick(&self.vaas);
                let prog = if s.chance(1, 6) { *s.pick(&progs()) } else { p };
                Call::Receive {
                    prog,
                    payer,
                    vaa: v,
                }
            }
            Op::Redeem => {
                let v = self.msgs();
                if v.is_empty() {
                    return None;
                }
                let m = *s.pick(&v);
                match self.redeem_of(m) {
                    Call::Redeem {
                        payer,
                        msg,
                        transceiver,
                    } => {
                        let transceiver = if s.chance(self.p.miss, 200) {
                            *s.pick(&Self::transceivers())
                        } else {
                            transceiver
                        };
                        Call::Redeem {
                            payer,
                            msg,
                            transceiver,
                        }
                    }
                    c => c,
                }
            }
            Op::ReleaseIn => {
                if self.fee_kind() {
                    return None;
                }
                let v = self.ins();
                if v.is_empty() {
                    return None;
                }
                let i = *s.pick(&v);
                self.release_in(s, i)
            }
            Op::ReleaseOut => {
                let v = self.outs();
                if v.is_empty() {
                    return None;
                }
                let outbox = *s.pick(&v);
                let prog = *s.pick(&progs());
                Call::ReleaseOut {
                    prog,
                    payer,
                    outbox,
                    revert: s.bool(),
                }
            }
            Op::Mark => {
                let v = self.outs();
                if v.is_empty() {
                    return None;
                }
                let outbox = *s.pick(&v);
                let i = s.below(P::N_FAKE as u64) as u8;
                let mut t = P::fake_transceiver(i);
                let mut by = MarkBy::Fake(i);
                if s.chance(1, 4) {
                    match s.below(3) {
                        0 => by = MarkBy::FakeUnsigned(i),
                        1 => t = *s.pick(&Self::transceivers()),
                        _ => by = MarkBy::Direct(*s.pick(&[self.people[0], self.people[1]])),
                    }
                }
                Call::Mark {
                    payer,
                    by,
                    outbox,
                    transceiver: t,
                }
            }
            Op::SetPeer => {
                let chain = *s.pick(&self.chains);
                let addr = match s.below(3) {
                    0 => self.mgr_addr(chain, 0),
                    1 => self.mgr_addr(chain, 1),
                    _ => self.b32(s),
                };
                let dec = if s.chance(1, 4) { s.below(256) as u8 } else { *s.pick(&[8u8, 18, 6, 9, 0, 255]) };
                let limit = self.limit(s);
                Call::SetPeer {
                    payer,
                    signer: self.signer(s),
                    chain,
                    addr,
                    limit,
                    decimals: dec,
                }
            }
            Op::OutLimit => {
                let limit = self.limit(s);
                Call::SetOutLimit {
                    signer: self.signer(s),
                    limit,
                }
            }
            Op::InLimit => {
                let limit = self.limit(s);
                Call::SetInLimit {
                    signer: self.signer(s),
                    chain: *s.pick(&self.chains),
                    limit,
                }
            }
            Op::Pause => Call::SetPaused {
                signer: self.signer(s),
                paused: s.below(3) == 1,
            },
            Op::Register => {
                let t = match s.below(5) {
                    0 | 1 => *s.pick(&Self::transceivers()),
                    2 => {
                        self.n_extra = self.n_extra.wrapping_add(1);
                        extra_program(self.n_extra)
                    }
                    3 => *s.pick(&[P::quoter(), P::token(), P::noop_program(), P::hook()]),
                    _ => *s.pick(&[
                        self.people[2],
                        config(),
                        self.w.m.mint,
                        Pubkey::new_from_array([5; 32]),
                    ]),
                };
                Call::Register {
                    payer,
                    signer: self.signer(s),
                    transceiver: t,
                }
            }
            Op::Nominate => {
                let signer = self.signer(s);
                // addresses nobody can sign for: the owner can still take the nomination back
                let odd = s.chance(1, 6);
                let new_owner = if odd { *s.pick(&self.unsignable()) } else { self.person(s) };
                Call::Nominate { signer, new_owner, one_step: s.bool() && !odd }
            }
            Op::Claim => {
                let odd = self.unsignable();
                let who = match self.w.m.cfg().unwrap().pending {
                    Some(p) if odd.contains(&p) => *s.pick(&[self.owner(), self.owner(), self.people[3]]),
                    Some(p) if s.below(3) < 2 => p,
                    _ => self.person(s),
                };
                Call::Claim { who }
            }
            Op::SetXPeer => {
                let prog = *s.pick(&progs());
                let chain = *s.pick(&self.chains);
                let addr = if s.bool() {
                    self.x_addr(&prog, chain)
                } else {
                    self.b32(s)
                };
                Call::SetXPeer {
                    prog,
                    payer,
                    signer: self.signer(s),
                    chain,
                    addr,
                }
            }
            Op::BroadcastId => Call::BroadcastId {
                prog: *s.pick(&progs()),
                payer,
                msg: self.w.fresh(),
            },
            Op::BroadcastPeer => {
                let chain = *s.pick(&self.chains);
                Call::BroadcastPeer {
                    prog: *s.pick(&progs()),
                    payer,
                    chain,
                    msg: self.w.fresh(),
                }
            }
            Op::Lut => {
                let slot = match s.below(6) {
                    0 => 990,
                    1 => 927,
                    2 => 926,
                    3 => 991,
                    4 => 1000,
                    _ => s.range(927, 990),
                };
                Call::InitLut { payer, slot }
            }
            Op::Reinit => {
                let mint = if s.bool() {
                    self.w.m.mint
                } else {
                    self.w.decoy_mint
                };
                let deployer = match s.below(3) {
                    0 => self.people[0],
                    1 => self
                        .w
                        .m
                        .upgrade_auth()
                        .filter(|k| self.people.contains(k))
                        .unwrap_or(self.people[0]),
                    _ => self.person(s),
                };
                Call::Initialize {
                    payer,
                    deployer,
                    mint,
                    chain: *s.pick(&[1u16, 2]),
                    limit: 5,
                    mode: s.below(2) as u8,
                }
            }
            _ => return None,
        })
    }

    pub fn step_op(&mut self, op: Op, s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
        match op {
            Op::Time => self.time(s, obs),
            Op::Transfer => self.transfer(s, obs)?,
            Op::TransferMiss => self.transfer_miss(s, obs)?,
            Op::Inbound => self.inbound(s, obs)?,
            Op::Poke => {
                if s.chance(1, 6) {
                    // whoever holds the upgrade authority may move it with the loader directly
                    let a = *s.pick(&[upgrade_lock(), self.owner(), self.people[2], upgrade_lock()]);
                    let a = if s.chance(1, 8) { None } else { Some(a) };
                    self.w.poke_authority(a);
                    obs.class("upgrade authority moved with the loader");
                    return Ok(());
                }
                self.poke(s);
                if s.chance(1, 6) {
                    // as if many transceivers had been registered before
                    let c = self.w.m.cfg_mut();
                    if c.next_id < 120 {
                        c.next_id = match s.below(3) {
                            0 => 124 + s.below(4) as u8,
                            1 => *s.pick(&[7u8, 8, 15, 16, 31, 32, 62, 63, 64, 65, 95, 99, 100]),
                            _ => c.next_id + s.below(127 - c.next_id as u64) as u8,
                        };
                    }
                    self.w.poke_cfg();
                }
            }
            Op::Deposit if s.chance(1, 3) => {
                // the token's freeze authority freezes or thaws an account
                let v = self.keys_of(|x| matches!(x, St::Tok(_)));
                let f: Vec<Pubkey> = self.keys_of(|x| matches!(x, St::Tok(t) if t.frozen));
                let k = if f.is_empty() { *s.pick(&v) } else { *s.pick(&f) };
                let t = self.w.m.tok_mut(&k);
                t.frozen = !t.frozen;
                obs.class("token account frozen or thawed");
                obs.log(|| format!("frozen state of {k} toggled"));
                self.w.poke_tok(&k);
            }
            Op::Deposit => {
                let d = s.below(1000);
                let cust = self.w.m.cfg().unwrap().custody;
                if self.w.m.tok(&cust).unwrap().amount < u64::MAX / 2
                    && *self.w.m.supply() < u64::MAX / 2
                {
                    self.w.m.tok_mut(&cust).amount += d;
                    *self.w.m.supply() += d;
                    self.w.poke_tok(&cust);
                    self.sync_supply();
                }
            }
            Op::ClientTransfer => {
                let sender = self.people[2 + s.idx(3)];
                let from = ata(&sender, &self.w.m.mint, &self.w.m.token_program);
                let req = self.transfer_req(s, &from);
                let sa = s.bool();
                obs.ops += 1;
                obs.mix("client transfer");
                let relay = if self.p.relay && !req.queue && req.chain > 1 {
                    Some(match s.below(3) {
                        0 => 0,
                        1 => 5_000_000_000,
                        _ => s.below(5_000_000_000),
                    })
                } else {
                    None
                };
                let r = self.w.client_transfer(sender, req, sa, relay, obs)?;
                if let Some(d) = &r {
                    obs.class(if d[0].delayed { "client: outbound transfer queued" } else { "client: outbound transfer published" });
                }
                obs.mixn(r.is_some() as u64);
            }
            Op::ClientRedeem => {
                let payer = self.people[2 + s.idx(3)];
                let (v, prog) = if self.vaas.is_empty() || s.chance(3, 4) {
                    let (ch, x) = self.new_xfer(s);
                    if self.known.len() > 12 {
                        self.known.remove(0);
                    }
                    self.known.push((ch, x.clone()));
                    let prog = *s.pick(&progs());
                    (self.attest_vaa(s, &prog, ch, &x), prog)
                } else {
                    *s.pick(&self.vaas)
                };
                obs.ops += 1;
                obs.mix("client redeem");
                let r = self.w.client_redeem(payer, v, prog, obs)?;
                if let Some(d) = &r {
                    obs.class(if d[2].noop { "client: inbound transfer queued" } else { "client: inbound transfer paid" });
                }
                obs.mixn(r.is_some() as u64);
            }
            Op::ClientRegister => {
                let (payer, signer, prog) = (self.payer(), self.signer(s), *s.pick(&progs()));
                obs.ops += 1;
                let r = self.w.client_register(payer, signer, prog, obs)?;
                if r.is_some() {
                    obs.class("client: transceiver registered");
                }
            }
            Op::ClientXPeer => {
                let (signer, prog, ch) = (self.signer(s), *s.pick(&progs()), *s.pick(&self.chains));
                let addr = if s.bool() { self.x_addr(&prog, ch) } else { self.b32(s) };
                obs.ops += 1;
                let r = self.w.client_set_x_peer(signer, prog, ch, addr, obs)?;
                if r.is_some() {
                    obs.class("client: transceiver peer set");
                }
            }
            Op::ClientRead => {
                let mut msgs: Vec<(u16, Xfer)> = vec![];
                for _ in 0..3 {
                    if !self.known.is_empty() {
                        let m = s.pick(&self.known).clone();
                        msgs.push(m);
                    }
                }
                obs.ops += 1;
                let ch = self.chains.clone();
                self.w.client_read(&ch, &msgs, obs)?;
            }
            Op::Replay => {
                if self.hist.is_empty() {
                    return Ok(());
                }
                let (c, _) = s.pick(&self.hist).clone();
                if self.fee_kind() && matches!(c, Call::ReleaseIn { .. }) {
                    return Ok(());
                }
                obs.class("exact replay of an earlier call");
                self.ok(c, obs)?;
            }
            Op::Forge => {
                let kinds: Vec<Op> = vec![
                    Op::Receive,
                    Op::Redeem,
                    Op::ReleaseIn,
                    Op::ReleaseOut,
                    Op::Mark,
                    Op::SetPeer,
                    Op::OutLimit,
                    Op::InLimit,
                    Op::Pause,
                    Op::Register,
                    Op::Nominate,
                    Op::Claim,
                    Op::SetXPeer,
                    Op::BroadcastId,
                    Op::BroadcastPeer,
                    Op::Lut,
                    Op::Transfer,
                ];
                // prefer the operations this profile is about
                let weights: Vec<u32> =
                    kinds.iter().map(|k| self.p.w[*k as usize].max(1)).collect();
                let k = kinds[s.weighted(&weights)];
                let mut c = None;
                for _ in 0..3 {
                    c = if k == Op::Transfer {
                        let src = self.sources();
                        let from = *s.pick(&src);
                        let mut req = self.transfer_req(s, &from);
                        req.queue = true;
                        let o = self.w.m.tok(&from).unwrap().owner;
                        let session = session_authority(&o, &req);
                        self.w.approve(&from, session, u64::MAX);
                        let outbox = self.w.fresh();
                        Some(Call::Transfer {
                            payer: self.payer(),
                            from,
                            burn: self.w.m.cfg().unwrap().mode == 1,
                            req,
                            outbox,
                            session,
                        })
                    } else {
                        self.gen_call(k, s)
                    };
                    if c.as_ref()
                        .map(|c| self.w.m.clone().apply(c).is_ok())
                        .unwrap_or(false)
                        || s.chance(1, 4)
                    {
                        break;
                    }
                }
                if let Some(c) = c {
                    self.forge(c, s, obs)?;
                }
            }
            _ => {
                if let Some(mut c) = self.gen_call(op, s) {
                    if let (true, Call::SetPeer { payer, signer, .. }) = (self.p.client && s.bool(), &mut c) {
                        *payer = *signer;
                    }
                    let mut mods = Mods::default();
                    if self.w.m.kind == TokKind::Hook
                        && matches!(c, Call::ReleaseIn { .. })
                        && s.chance(1, 4)
                    {
                        mods.hook = *s.pick(&[
                            HookAccts::Missing,
                            HookAccts::WrongDummy,
                            HookAccts::WrongCounter,
                            HookAccts::Padded,
                            HookAccts::Reversed,
                        ]);
                    }
                    if let Call::Register { transceiver, .. } = &c {
                        if is_extra_program(transceiver) {
                            self.w.svm.put_program(
                                *transceiver,
                                solana_sdk::bpf_loader::id(),
                                vec![0; 8],
                            );
                        }
                    }
                    // sometimes bundle with the release that follows
                    if let (Call::Redeem { msg, .. }, true) = (&c, s.chance(1, 6)) {
                        if let (Some(St::Msg(_, ch, x)), false) =
                            (self.w.m.st.get(msg), self.fee_kind())
                        {
                            let item = inbox_item(&x.digest(*ch));
                            let r = self.release_in(s, item);
                            self.ok_many(vec![c, r], obs)?;
                            return Ok(());
                        }
                    }
                    self.run(c, mods, obs)?;
                }
            }
        }
        Ok(())
    }

    /// a copy of an account's contents at an attacker's address under an attacker's program
    fn copy_of(&mut self, k: &Pubkey, owner: Pubkey) -> Pubkey {
        let d = self
            .w
            .svm
            .get(k)
            .map(|a| a.data.clone())
            .unwrap_or_default();
        let n = self.w.fresh();
        self.w.svm.put(n, owner, d);
        n
    }

    /// the call with one account replaced or one signature missing
    pub fn forge(&mut self, c: Call, s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
        let invalid = self.w.m.clone().apply(&c).is_err();
        let (_, slots, _, _) = self.w.slots(&c, HookAccts::Full);
        let bound: Vec<usize> = slots
            .iter()
            .enumerate()
            .filter(|(_, x)| x.bind != Bind::No && !(invalid && chosen(&c, x.name)))
            .map(|(i, _)| i)
            .collect();
        let signers: Vec<usize> = slots
            .iter()
            .enumerate()
            .filter(|(_, x)| x.meta.is_signer)
            .map(|(i, _)| i)
            .collect();
        if !invalid && !signers.is_empty() && s.chance(1, 4) {
            let i = *s.pick(&signers);
            obs.class("required signature missing");
            self.run(
                c,
                Mods {
                    unsign: vec![i],
                    ..Default::default()
                },
                obs,
            )?;
            return Ok(());
        }
        if bound.is_empty() {
            return Ok(());
        }
        let mut i = *s.pick(&bound);
        // the account that decides who may speak for a chain is the one worth forging
        if matches!(c, Call::Receive { .. } | Call::Redeem { .. }) && s.chance(1, 3) {
            i = bound.iter().copied().find(|i| slots[*i].name == "peer").unwrap_or(i);
        }
        let real = slots[i].meta.pubkey;
        let name = slots[i].name;
        let attacker = self.people[3];
        let mut cands: Vec<Pubkey> = vec![];
        let m = &self.w.m;
        // real accounts of the same kind
        let same = |f: &dyn Fn(&St) -> bool| -> Vec<Pubkey> {
            m.st.iter()
                .filter(|(k, v)| **k != real && f(v))
                .map(|(k, _)| *k)
                .collect()
        };
        match name {
            "peer" => {
                // another chain's peer that would vouch for this message, if there is one
                let fit: Vec<Pubkey> = match &c {
                    Call::Receive { prog, vaa, .. } => match m.vaas.get(vaa) {
                        Some(v) => same(&|x| matches!(x, St::XPeer(p, _, a) if p == prog && *a == v.emitter)),
                        None => vec![],
                    },
                    Call::Redeem { msg, .. } => match m.st.get(msg) {
                        Some(St::Msg(_, _, y)) => same(&|x| matches!(x, St::Peer(_, a, _) if *a == y.source_mgr)),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                if fit.is_empty() {
                    cands.extend(same(&|x| matches!(x, St::Peer(..) | St::XPeer(..))))
                } else {
                    cands = fit;
                }
            }
            "inbox_rate_limit" | "rate_limit" | "outbox_rate_limit" => {
                cands.extend(same(&|x| matches!(x, St::InRl(..) | St::OutRl(..))))
            }
            "transceiver" | "registered_transceiver" => {
                cands.extend(same(&|x| matches!(x, St::Reg(..))))
            }
            "inbox_item" => cands.extend(same(&|x| matches!(x, St::In(..)))),
            "outbox_item" => cands.extend(same(&|x| matches!(x, St::Out(..)))),
            "transceiver_message" => {
                let cur = match m.st.get(&real) {
                    Some(St::Msg(o, ch, x)) => Some((*o, *ch, x.clone())),
                    _ => None,
                };
                for (k, v) in &m.st {
                    if let St::Msg(o, ch, x) = v {
                        if *k != real && cur != Some((*o, *ch, x.clone())) {
                            cands.push(*k);
                        }
                    }
                }
            }
            "vaa" => {
                // another attested message with the same content in effect would be a valid call
                let cur = m.vaas.get(&real).cloned();
                for (k, v) in &m.vaas {
                    if let (Some(c), Some(b)) = (&cur, &v.body) {
                        let same_target =
                            c.chain == v.chain && c.body.as_ref().map(|x| x.id) == Some(b.id);
                        if !same_target {
                            cands.push(*k);
                        }
                    }
                }
                cands.extend(same(&|x| matches!(x, St::Posted(_))));
            }
            "recipient" => {
                cands.extend(same(&|x| matches!(x, St::Tok(_))));
            }
            "custody" => {
                cands.extend(same(&|x| matches!(x, St::Tok(_))));
                let auth = self.w.m.mint_authority.unwrap_or_default();
                let o = *s.pick(&[token_authority(), token_authority(), auth, self.owner(), self.people[3], config()]);
                let a = *s.pick(&[0u64, 0, 1, 1_000_000]);
                let a = if *self.w.m.supply() < u64::MAX / 2 { a } else { 0 };
                let k = self.w.make_aux_tok(o, a);
                *self.w.m.supply() += a;
                self.sync_supply();
                cands.push(k);
            }
            "mint" => cands.push(self.w.decoy_mint),
            "token_program" => cands.extend([P::token(), P::token22(), P::noop_program()]),
            "sequence" => cands.extend([
                sequence(&emitter(&P::ntt())),
                sequence(&emitter(&P::standalone())),
            ]),
            "emitter" => cands.extend([
                emitter(&P::ntt()),
                emitter(&P::standalone()),
                token_authority(),
            ]),
            "wormhole_message" => cands.extend(same(&|x| matches!(x, St::Posted(_)))),
            "token_authority" | "session_authority" | "authority" | "upgrade_lock" => {
                cands.extend([
                    token_authority(),
                    attacker,
                    lut_authority(),
                    emitter(&P::ntt()),
                    upgrade_lock(),
                ])
            }
            "owner" => cands.extend([attacker, self.people[4], token_authority()]),
            "program_data" => {
                cands.extend([program_data(&P::standalone()), program_data(&P::quoter())])
            }
            "lut_address" => cands.extend([lut_table(950), lut_table(989), attacker]),
            "deployer" => cands.extend([attacker, self.people[4]]),
            "outbox_item_signer" => cands.extend([
                outbox_signer(&P::ntt()),
                outbox_signer(&P::fake_transceiver(0)),
                attacker,
            ]),
            "signer" => {
                cands.extend((0..P::N_FAKE).map(|i| outbox_signer(&P::fake_transceiver(i))))
            }
            "manager"
            | "wormhole_program"
            | "associated_token_program"
            | "lut_program"
            | "loader"
            | "system_program" => cands.extend([P::noop_program(), P::standalone(), P::token()]),
            _ => {}
        }
        cands.retain(|k| *k != real);
        let owner_signer = slots[i].meta.is_signer;
        let typed = self.w.svm.get(&real).filter(|a| a.data.len() >= 8 && !a.executable).map(|a| a.owner).filter(|o| {
            *o == P::ntt() || *o == P::standalone() || (0..P::N_FAKE).any(|i| *o == P::fake_transceiver(i))
        });
        // (of the core bridge's accounts only a posted VAA is told apart by its first bytes)
        let typed = typed.or((slots[i].name == "vaa" && self.w.svm.get(&real).is_some_and(|a| a.data.starts_with(b"vaa"))).then(P::core_bridge_id));
        let k = if let Some(o) = typed.filter(|_| !owner_signer && s.chance(1, 4)) {
            obs.class("account of another type with the same contents");
            let k = self.copy_of(&real, o);
            retype(&mut self.w.svm.db.get_mut(&k).unwrap().data, s);
            k
        } else if cands.is_empty() || (!owner_signer && s.chance(1, 3)) {
            match s.below(4) {
                0 => self.copy_of(&real, P::noop_program()),
                1 => self.copy_of(&real, system_program::id()),
                2 => self.copy_of(&real, P::noop_program()),
                _ => attacker,
            }
        } else {
            *s.pick(&cands)
        };
        // a "signer" replaced by another PDA cannot sign
        if owner_signer && !self.people.contains(&k) {
            return Ok(());
        }
        if k == real {
            return Ok(());
        }
        obs.class("account substituted");
        obs.log(|| format!("substitute {name} of {}", c.name()));
        self.run(
            c,
            Mods {
                subst: vec![(i, k)],
                ..Default::default()
            },
            obs,
        )?;
        Ok(())
    }
}

/// accounts a caller names to say what the call is about; replacing one of those makes another call,
/// replacing any other one leaves the call and only makes it wrong
fn chosen(c: &Call, name: &str) -> bool {
    match name {
        "session_authority" | "vaa" | "owner" | "signer" | "outbox_item" | "deployer" | "new_owner" | "inbox_item" => {
            !matches!((c, name), (Call::Redeem { .. }, "inbox_item"))
        }
        "transceiver" => !matches!(c, Call::ReleaseOut { .. }),
        "transceiver_message" => matches!(c, Call::Redeem { .. }),
        _ => matches!(c, Call::Initialize { .. }),
    }
}

pub fn history(s: &mut Src, obs: &mut Obs, p: &Profile) -> Result<(), Fail> {
    let mut g = match G::new(s, obs, p)? {
        Some(g) => g,
        None => return Ok(()),
    };
    let mut n = 0;
    while n < 4 * p.mean && s.more(if n < p.mean { 4 * p.mean } else { p.mean / 2 }) {
        s.begin();
        g.step(s, obs)?;
        s.end();
        n += 1;
    }
    Ok(())
}
