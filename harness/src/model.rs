//! Reference model of the manager, its built-in transceiver and the standalone transceiver.
//! State is kept per account address; `apply` says whether a call must succeed and what it leaves behind.
use crate::layout::*;
use crate::programs as P;
use solana_sdk::{account::Account, pubkey::Pubkey};
use std::collections::BTreeMap;

pub const DAY: i64 = 86_400;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rl {
    pub limit: u64,
    pub cap: u64,
    pub last: i64,
}
impl Rl {
    pub fn new(limit: u64) -> Self {
        Rl {
            limit,
            cap: limit,
            last: 0,
        }
    }
    pub fn at(&self, now: i64) -> u64 {
        let dt = (now as i128 - self.last as i128) as u128;
        let c = self.cap as u128 + dt * self.limit as u128 / DAY as u128;
        c.min(self.limit as u128) as u64
    }
    /// Ok(now) when consumed, Err(release time) when over the limit
    pub fn consume(&mut self, now: i64, amount: u64) -> Result<i64, i64> {
        let c = self.at(now);
        if amount <= c {
            self.cap = c - amount;
            self.last = now;
            Ok(now)
        } else {
            Err(now + DAY)
        }
    }
    pub fn refill(&mut self, now: i64, amount: u64) {
        let c = self.at(now) as u128 + amount as u128;
        self.cap = c.min(self.limit as u128) as u64;
        self.last = now;
    }
    pub fn set_limit(&mut self, now: i64, limit: u64) {
        let c = self.at(now) as i128 + limit as i128 - self.limit as i128;
        self.cap = c.clamp(0, limit as i128) as u64;
        self.limit = limit;
        self.last = now;
    }
}

/// exact decimal conversion; None when the power of ten or the result does not fit in 64 bits
pub fn scale(amount: u64, from: u8, to: u8) -> Option<u64> {
    let p = (from as i32 - to as i32).unsigned_abs();
    let f = 10u64.checked_pow(p)?;
    if from >= to {
        Some(amount / f)
    } else {
        u64::try_from(amount as u128 * f as u128).ok()
    }
}
/// (amount taken in local decimals, wire amount, wire decimals)
pub fn trim(amount: u64, local: u8, peer: u8) -> Option<(u64, u64, u8)> {
    let d = 8.min(local).min(peer);
    let t = scale(amount, local, d)?;
    Some((scale(t, d, local)?, t, d))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub owner: Pubkey,
    pub pending: Option<Pubkey>,
    pub mint: Pubkey,
    pub token_program: Pubkey,
    pub mode: u8,
    pub chain: u16,
    pub next_id: u8,
    pub threshold: u8,
    pub enabled: u128,
    pub paused: bool,
    pub custody: Pubkey,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    NotApproved,
    After(i64),
    Released,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OutItem {
    pub amount: u64,
    pub decimals: u8,
    pub sender: Pubkey,
    pub chain: u16,
    pub mgr: B32,
    pub to: B32,
    pub release: i64,
    pub released: u128,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct InItem {
    pub amount: u64,
    pub recipient: Pubkey,
    pub votes: u128,
    pub status: Status,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum St {
    Config(Cfg),
    OutRl(Rl),
    InRl(u16, Rl),
    Peer(u16, B32, u8),
    XPeer(Pubkey, u16, B32),
    Reg(Pubkey, u8),
    Out(OutItem),
    /// owner program, source chain, content
    Msg(Pubkey, u16, Xfer),
    In(B32, InItem),
    Tok(Tok),
    Mint {
        supply: u64,
        decimals: u8,
    },
    Posted(Posted),
    Seq(u64),
    FeeCollector(u64),
    Lut(Pubkey),
    Table(Vec<Pubkey>),
    ProgData(Option<Pubkey>),
    Counter(u64),
}

fn opt_key(o: &Option<Pubkey>) -> Vec<u8> {
    match o {
        None => vec![0],
        Some(k) => [&[1u8], k.as_ref()].concat(),
    }
}
fn rl_bytes(r: &Rl) -> Vec<u8> {
    [
        r.limit.to_le_bytes(),
        r.cap.to_le_bytes(),
        r.last.to_le_bytes(),
    ]
    .concat()
}
pub fn cfg_bytes(c: &Cfg) -> Vec<u8> {
    let b = pda_b(&[b"config"], &P::ntt()).1;
    let mut v = acc_disc("Config").to_vec();
    v.push(b);
    v.extend_from_slice(c.owner.as_ref());
    v.extend(opt_key(&c.pending));
    v.extend_from_slice(c.mint.as_ref());
    v.extend_from_slice(c.token_program.as_ref());
    v.push(c.mode);
    v.extend_from_slice(&c.chain.to_le_bytes());
    v.push(c.next_id);
    v.push(c.threshold);
    v.extend_from_slice(&c.enabled.to_le_bytes());
    v.push(c.paused as u8);
    v.extend_from_slice(c.custody.as_ref());
    v
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn n(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.n(1)?[0])
    }
    fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.n(32)?.try_into().unwrap()))
    }
    fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.n(2)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.n(8)?.try_into().unwrap()))
    }
    fn i64(&mut self) -> Option<i64> {
        Some(self.u64()? as i64)
    }
    fn u128(&mut self) -> Option<u128> {
        Some(u128::from_le_bytes(self.n(16)?.try_into().unwrap()))
    }
}
fn decode_cfg(d: &[u8]) -> Option<Cfg> {
    let mut r = Rd(d);
    if r.n(8)? != acc_disc("Config") {
        return None;
    }
    r.u8()?;
    let owner = r.key()?;
    let pending = match r.u8()? {
        0 => None,
        1 => Some(r.key()?),
        _ => return None,
    };
    Some(Cfg {
        owner,
        pending,
        mint: r.key()?,
        token_program: r.key()?,
        mode: r.u8()?,
        chain: r.u16()?,
        next_id: r.u8()?,
        threshold: r.u8()?,
        enabled: r.u128()?,
        paused: r.u8()? != 0,
        custody: r.key()?,
    })
}
fn decode_out(d: &[u8]) -> Option<OutItem> {
    let mut r = Rd(d);
    if r.n(8)? != acc_disc("OutboxItem") {
        return None;
    }
    Some(OutItem {
        amount: r.u64()?,
        decimals: r.u8()?,
        sender: r.key()?,
        chain: r.u16()?,
        mgr: r.n(32)?.try_into().unwrap(),
        to: r.n(32)?.try_into().unwrap(),
        release: r.i64()?,
        released: r.u128()?,
    })
}
pub fn out_bytes(o: &OutItem) -> Vec<u8> {
    let mut v = acc_disc("OutboxItem").to_vec();
    v.extend_from_slice(&o.amount.to_le_bytes());
    v.push(o.decimals);
    v.extend_from_slice(o.sender.as_ref());
    v.extend_from_slice(&o.chain.to_le_bytes());
    v.extend_from_slice(&o.mgr);
    v.extend_from_slice(&o.to);
    v.extend_from_slice(&o.release.to_le_bytes());
    v.extend_from_slice(&o.released.to_le_bytes());
    v
}
fn decode_in(d: &[u8]) -> Option<(bool, InItem)> {
    let mut r = Rd(d);
    if r.n(8)? != acc_disc("InboxItem") {
        return None;
    }
    let init = r.u8()? == 1;
    r.u8()?;
    let amount = r.u64()?;
    let recipient = r.key()?;
    let votes = r.u128()?;
    let status = match r.u8()? {
        0 => Status::NotApproved,
        1 => Status::After(r.i64()?),
        2 => Status::Released,
        _ => return None,
    };
    Some((
        init,
        InItem {
            amount,
            recipient,
            votes,
            status,
        },
    ))
}

type Mis = (&'static str, String);

fn pre(
    owner: &Pubkey,
    a: &Account,
    want_owner: &Pubkey,
    name: &str,
    body: &[u8],
) -> Result<(), Mis> {
    if a.owner != *want_owner {
        return Err(("owner", format!("owner {} want {}", a.owner, owner)));
    }
    let mut v = acc_disc(name).to_vec();
    v.extend_from_slice(body);
    if a.data.len() < v.len() || a.data[..v.len()] != v[..] {
        let i = a
            .data
            .iter()
            .zip(v.iter())
            .position(|(x, y)| x != y)
            .unwrap_or(v.len().min(a.data.len()));
        return Err((
            "data",
            format!(
                "{name} differs from offset {i}: {:02x?} want {:02x?}",
                a.data.get(i..a.data.len().min(i + 16)),
                v.get(i..v.len().min(i + 16))
            ),
        ));
    }
    Ok(())
}

macro_rules! eqf {
    ($out:ident, $f:expr, $a:expr, $b:expr) => {
        if $a != $b {
            $out.push(($f, format!("{} is {:?}, must be {:?}", $f, $a, $b)));
        }
    };
}

impl St {
    pub fn kind(&self) -> &'static str {
        match self {
            St::Config(_) => "config",
            St::OutRl(_) => "outbound-limit",
            St::InRl(..) => "inbound-limit",
            St::Peer(..) => "peer",
            St::XPeer(..) => "transceiver-peer",
            St::Reg(..) => "registered-transceiver",
            St::Out(_) => "outbox-item",
            St::Msg(..) => "message",
            St::In(..) => "inbox-item",
            St::Tok(_) => "token-account",
            St::Mint { .. } => "mint",
            St::Posted(_) => "posted-message",
            St::Seq(_) => "sequence",
            St::FeeCollector(_) => "fee-collector",
            St::Lut(_) => "lut",
            St::Table(_) => "lookup-table",
            St::ProgData(_) => "program-data",
            St::Counter(_) => "hook-counter",
        }
    }
    /// compares the account with this state
    /// every field in which the account differs from what it must hold
    pub fn check(&self, key: &Pubkey, a: Option<&Account>) -> Vec<Mis> {
        let mut out = vec![];
        if let Err(e) = self.check_into(key, a, &mut out) {
            out.push(e);
        }
        out
    }
    fn check_into(&self, key: &Pubkey, a: Option<&Account>, out: &mut Vec<Mis>) -> Result<(), Mis> {
        let a = match a {
            Some(a) => a,
            None => return Err(("missing", "account does not exist".into())),
        };
        let ntt = P::ntt();
        match self {
            St::Config(c) => {
                eqf!(out, "owner", a.owner, ntt);
                let d = decode_cfg(&a.data).ok_or(("data", "undecodable config".to_string()))?;
                eqf!(out, "owner_field", d.owner, c.owner);
                eqf!(out, "pending_owner", d.pending, c.pending);
                eqf!(out, "paused", d.paused, c.paused);
                eqf!(out, "threshold", d.threshold, c.threshold);
                eqf!(out, "enabled", d.enabled, c.enabled);
                eqf!(out, "next_id", d.next_id, c.next_id);
                eqf!(out, "fixed",
                    (d.mode, d.chain, d.mint, d.token_program, d.custody),
                    (c.mode, c.chain, c.mint, c.token_program, c.custody)
                );
                pre(key, a, &ntt, "Config", &cfg_bytes(c)[8..])
            }
            St::OutRl(r) => pre(key, a, &ntt, "OutboxRateLimit", &rl_bytes(r)),
            St::InRl(ch, r) => {
                let b = pda_b(&[b"inbox_rate_limit", &ch.to_be_bytes()], &ntt).1;
                pre(
                    key,
                    a,
                    &ntt,
                    "InboxRateLimit",
                    &[&[b][..], &rl_bytes(r)].concat(),
                )
            }
            St::Peer(ch, ad, dec) => {
                let b = pda_b(&[b"peer", &ch.to_be_bytes()], &ntt).1;
                pre(
                    key,
                    a,
                    &ntt,
                    "NttManagerPeer",
                    &[&[b][..], ad, &[*dec]].concat(),
                )
            }
            St::XPeer(p, ch, ad) => {
                let b = pda_b(&[b"transceiver_peer", &ch.to_be_bytes()], p).1;
                pre(key, a, p, "TransceiverPeer", &[&[b][..], ad].concat())
            }
            St::Reg(p, id) => {
                let b = pda_b(&[b"registered_transceiver", p.as_ref()], &ntt).1;
                pre(
                    key,
                    a,
                    &ntt,
                    "RegisteredTransceiver",
                    &[&[b, *id][..], p.as_ref()].concat(),
                )
            }
            St::Out(o) => {
                eqf!(out, "owner", a.owner, ntt);
                let d =
                    decode_out(&a.data).ok_or(("data", "undecodable outbox item".to_string()))?;
                eqf!(out, "amount", (d.amount, d.decimals), (o.amount, o.decimals));
                eqf!(out, "sender", d.sender, o.sender);
                eqf!(out, "destination",
                    (d.chain, d.mgr, d.to),
                    (o.chain, o.mgr, o.to)
                );
                eqf!(out, "release", d.release, o.release);
                eqf!(out, "released", d.released, o.released);
                Ok(())
            }
            St::Msg(p, ch, x) => {
                eqf!(out, "owner", a.owner, *p);
                let v = x.validated(*ch);
                if a.data.len() < v.len() || a.data[..v.len()] != v[..] {
                    let i = a
                        .data
                        .iter()
                        .zip(v.iter())
                        .position(|(x, y)| x != y)
                        .unwrap_or(0);
                    return Err(("data", format!("message differs at offset {i}")));
                }
                Ok(())
            }
            St::In(_, it) => {
                eqf!(out, "owner", a.owner, ntt);
                let (init, d) =
                    decode_in(&a.data).ok_or(("data", "undecodable inbox item".to_string()))?;
                eqf!(out, "init", init, true);
                eqf!(out, "amount", d.amount, it.amount);
                eqf!(out, "recipient", d.recipient, it.recipient);
                eqf!(out, "votes", d.votes, it.votes);
                eqf!(out, "status", d.status, it.status);
                Ok(())
            }
            St::Tok(t) => {
                let d =
                    decode_tok(&a.data).ok_or(("data", "undecodable token account".to_string()))?;
                eqf!(out, "amount", d.amount, t.amount);
                eqf!(out, "delegate",
                    (d.delegate, d.delegated),
                    (t.delegate, t.delegated)
                );
                eqf!(out, "owner", (d.owner, d.mint), (t.owner, t.mint));
                Ok(())
            }
            St::Mint { supply, decimals } => {
                eqf!(out, "supply", mint_supply(&a.data), *supply);
                eqf!(out, "decimals", a.data[44], *decimals);
                Ok(())
            }
            St::Posted(p) => {
                eqf!(out, "owner", a.owner, P::core_bridge_id());
                let d = decode_posted(&a.data)
                    .ok_or(("data", "undecodable posted message".to_string()))?;
                eqf!(out, "payload", d.payload, p.payload);
                eqf!(out, "emitter", d.emitter, p.emitter);
                eqf!(out, "consistency", d.consistency, p.consistency);
                eqf!(out, "sequence", d.sequence, p.sequence);
                eqf!(out, "nonce", d.nonce, p.nonce);
                Ok(())
            }
            St::Seq(n) => {
                eqf!(out, "value",
                    u64::from_le_bytes(a.data[..8].try_into().unwrap()),
                    *n
                );
                Ok(())
            }
            St::FeeCollector(n) => {
                eqf!(out, "lamports", a.lamports, *n);
                Ok(())
            }
            St::Lut(t) => {
                let b = pda_b(&[b"lut"], &ntt).1;
                pre(key, a, &ntt, "LUT", &[&[b][..], t.as_ref()].concat())
            }
            St::Table(v) => {
                eqf!(out, "owner",
                    a.owner,
                    solana_sdk::address_lookup_table::program::id()
                );
                let auth = if a.data[21] == 1 {
                    Some(Pubkey::new_from_array(a.data[22..54].try_into().unwrap()))
                } else {
                    None
                };
                eqf!(out, "authority", auth, Some(lut_authority()));
                let d: Vec<Pubkey> = a.data[56..]
                    .chunks(32)
                    .map(|c| Pubkey::new_from_array(c.try_into().unwrap()))
                    .collect();
                eqf!(out, "entries", d, *v);
                Ok(())
            }
            St::ProgData(u) => {
                let got = if a.data[12] == 1 {
                    Some(Pubkey::new_from_array(a.data[13..45].try_into().unwrap()))
                } else {
                    None
                };
                eqf!(out, "authority", got, *u);
                Ok(())
            }
            St::Counter(n) => {
                eqf!(out, "count",
                    u64::from_le_bytes(a.data[8..16].try_into().unwrap()),
                    *n
                );
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MarkBy {
    /// forwarded by fake transceiver i, which signs with its own signer PDA
    Fake(u8),
    /// forwarded by fake transceiver i without the PDA's signature
    FakeUnsigned(u8),
    /// called directly, with this account as the signer
    Direct(Pubkey),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Initialize {
        payer: Pubkey,
        deployer: Pubkey,
        mint: Pubkey,
        chain: u16,
        limit: u64,
        mode: u8,
    },
    InitLut {
        payer: Pubkey,
        slot: u64,
    },
    Transfer {
        payer: Pubkey,
        from: Pubkey,
        burn: bool,
        req: Req,
        outbox: Pubkey,
        session: Pubkey,
    },
    Redeem {
        payer: Pubkey,
        msg: Pubkey,
        transceiver: Pubkey,
    },
    ReleaseIn {
        payer: Pubkey,
        item: Pubkey,
        mint: bool,
        revert: bool,
    },
    Nominate {
        signer: Pubkey,
        new_owner: Pubkey,
        one_step: bool,
    },
    Claim {
        who: Pubkey,
    },
    SetPeer {
        payer: Pubkey,
        signer: Pubkey,
        chain: u16,
        addr: B32,
        limit: u64,
        decimals: u8,
    },
    Register {
        payer: Pubkey,
        signer: Pubkey,
        transceiver: Pubkey,
    },
    SetOutLimit {
        signer: Pubkey,
        limit: u64,
    },
    SetInLimit {
        signer: Pubkey,
        chain: u16,
        limit: u64,
    },
    SetPaused {
        signer: Pubkey,
        paused: bool,
    },
    Mark {
        payer: Pubkey,
        by: MarkBy,
        outbox: Pubkey,
        transceiver: Pubkey,
    },
    SetXPeer {
        prog: Pubkey,
        payer: Pubkey,
        signer: Pubkey,
        chain: u16,
        addr: B32,
    },
    Receive {
        prog: Pubkey,
        payer: Pubkey,
        vaa: Pubkey,
    },
    ReleaseOut {
        prog: Pubkey,
        payer: Pubkey,
        outbox: Pubkey,
        revert: bool,
    },
    BroadcastId {
        prog: Pubkey,
        payer: Pubkey,
        msg: Pubkey,
    },
    BroadcastPeer {
        prog: Pubkey,
        payer: Pubkey,
        chain: u16,
        msg: Pubkey,
    },
}

impl Call {
    pub fn name(&self) -> &'static str {
        match self {
            Call::Initialize { .. } => "initialize",
            Call::InitLut { .. } => "initialize_lut",
            Call::Transfer { burn: true, .. } => "transfer_burn",
            Call::Transfer { .. } => "transfer_lock",
            Call::Redeem { .. } => "redeem",
            Call::ReleaseIn { mint: true, .. } => "release_inbound_mint",
            Call::ReleaseIn { .. } => "release_inbound_unlock",
            Call::Nominate { one_step: true, .. } => "transfer_ownership_one_step",
            Call::Nominate { .. } => "transfer_ownership",
            Call::Claim { .. } => "claim_ownership",
            Call::SetPeer { .. } => "set_peer",
            Call::Register { .. } => "register_transceiver",
            Call::SetOutLimit { .. } => "set_outbound_limit",
            Call::SetInLimit { .. } => "set_inbound_limit",
            Call::SetPaused { .. } => "set_paused",
            Call::Mark { .. } => "mark_outbox_item",
            Call::SetXPeer { .. } => "set_wormhole_peer",
            Call::Receive { .. } => "receive_message",
            Call::ReleaseOut { .. } => "release_outbound",
            Call::BroadcastId { .. } => "broadcast_id",
            Call::BroadcastPeer { .. } => "broadcast_peer",
        }
    }
    /// properties that promise the success of a valid call of this kind
    pub fn promises(&self) -> Vec<&'static str> {
        let mut v: Vec<&'static str> = match self {
            Call::Initialize { .. } => vec!["C20"],
            Call::InitLut { .. } => vec!["C14", "C26"],
            Call::Transfer { .. } => vec![
                "C02", "C03", "C05", "C11", "C13", "C14", "C17", "C20", "C27",
            ],
            Call::Redeem { .. } => vec![
                "C02", "C04", "C06", "C07", "C08", "C12", "C13", "C14", "C19",
            ],
            Call::ReleaseIn { .. } => vec!["C04", "C05", "C06", "C12", "C14", "C20", "C27"],
            Call::Nominate { .. } => vec!["C15", "C16", "C14"],
            Call::Claim { .. } => vec!["C16", "C14"],
            Call::SetPeer { .. } => vec!["C14", "C15"],
            Call::Register { .. } => vec!["C14", "C15", "C19"],
            Call::SetOutLimit { .. } | Call::SetInLimit { .. } => vec!["C10", "C14", "C15"],
            Call::SetPaused { .. } => vec!["C14", "C15"],
            Call::Mark { .. } => vec!["C09", "C14", "C24"],
            Call::SetXPeer { .. } => vec!["C15", "C14"],
            Call::Receive { .. } => vec!["C01", "C07", "C14"],
            Call::ReleaseOut { .. } => vec!["C01", "C09", "C14"],
            Call::BroadcastId { .. } | Call::BroadcastPeer { .. } => vec!["C01", "C25", "C14"],
        };
        if self.standalone() {
            v.push("C24");
        }
        v
    }
    pub fn standalone(&self) -> bool {
        match self {
            Call::SetXPeer { prog, .. }
            | Call::Receive { prog, .. }
            | Call::ReleaseOut { prog, .. }
            | Call::BroadcastId { prog, .. }
            | Call::BroadcastPeer { prog, .. } => *prog == P::standalone(),
            Call::Mark { .. } => true,
            _ => false,
        }
    }
}

pub type Tags = &'static [&'static str];
pub type Rej = Vec<(&'static str, Tags)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TokKind {
    Spl,
    T22,
    Hook,
    Fee { bps: u16, max: u64 },
}

#[derive(Clone)]
pub struct Vaa {
    pub chain: u16,
    pub emitter: B32,
    /// None: the payload is malformed
    pub body: Option<Xfer>,
}

/// what a call did, beyond state (used to decide substitution rules and classes)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Did {
    pub noop: bool,
    pub posted: bool,
    pub moved: Option<u64>,
    pub hooked: Option<u64>,
    pub delayed: bool,
    pub approved: bool,
    pub vote_only: bool,
    pub flag: Option<bool>,
}

#[derive(Clone)]
pub struct Model {
    pub st: BTreeMap<Pubkey, St>,
    pub now: i64,
    pub kind: TokKind,
    pub mint: Pubkey,
    pub token_program: Pubkey,
    pub mint_authority: Option<Pubkey>,
    pub wh_fee: u64,
    pub vaas: BTreeMap<Pubkey, Vaa>,
    pub slots: (u64, u64),
}

impl Model {
    pub fn cfg(&self) -> Option<&Cfg> {
        match self.st.get(&config()) {
            Some(St::Config(c)) => Some(c),
            _ => None,
        }
    }
    pub fn cfg_mut(&mut self) -> &mut Cfg {
        match self.st.get_mut(&config()) {
            Some(St::Config(c)) => c,
            _ => panic!("no config"),
        }
    }
    pub fn decimals(&self) -> u8 {
        match self.st.get(&self.mint) {
            Some(St::Mint { decimals, .. }) => *decimals,
            _ => panic!("no mint"),
        }
    }
    pub fn supply(&mut self) -> &mut u64 {
        match self.st.get_mut(&self.mint) {
            Some(St::Mint { supply, .. }) => supply,
            _ => panic!("no mint"),
        }
    }
    pub fn tok(&self, k: &Pubkey) -> Option<&Tok> {
        match self.st.get(k) {
            Some(St::Tok(t)) => Some(t),
            _ => None,
        }
    }
    pub fn tok_mut(&mut self, k: &Pubkey) -> &mut Tok {
        match self.st.get_mut(k) {
            Some(St::Tok(t)) => t,
            _ => panic!("no token account"),
        }
    }
    pub fn out_rl(&self) -> Option<&Rl> {
        match self.st.get(&outbox_rl()) {
            Some(St::OutRl(r)) => Some(r),
            _ => None,
        }
    }
    pub fn out_rl_mut(&mut self) -> &mut Rl {
        match self.st.get_mut(&outbox_rl()) {
            Some(St::OutRl(r)) => r,
            _ => panic!("no outbox limit"),
        }
    }
    pub fn in_rl(&self, ch: u16) -> Option<&Rl> {
        match self.st.get(&inbox_rl(ch)) {
            Some(St::InRl(_, r)) => Some(r),
            _ => None,
        }
    }
    pub fn in_rl_mut(&mut self, ch: u16) -> &mut Rl {
        match self.st.get_mut(&inbox_rl(ch)) {
            Some(St::InRl(_, r)) => r,
            _ => panic!("no inbox limit"),
        }
    }
    pub fn peer(&self, ch: u16) -> Option<(B32, u8)> {
        match self.st.get(&peer(ch)) {
            Some(St::Peer(_, a, d)) => Some((*a, *d)),
            _ => None,
        }
    }
    pub fn xpeer(&self, p: &Pubkey, ch: u16) -> Option<B32> {
        match self.st.get(&xpeer(p, ch)) {
            Some(St::XPeer(_, _, a)) => Some(*a),
            _ => None,
        }
    }
    pub fn reg(&self, t: &Pubkey) -> Option<u8> {
        match self.st.get(&registered(t)) {
            Some(St::Reg(_, id)) => Some(*id),
            _ => None,
        }
    }
    pub fn upgrade_auth(&self) -> Option<Pubkey> {
        match self.st.get(&program_data(&P::ntt())) {
            Some(St::ProgData(a)) => *a,
            _ => None,
        }
    }
    pub fn out(&self, k: &Pubkey) -> Option<&OutItem> {
        match self.st.get(k) {
            Some(St::Out(o)) => Some(o),
            _ => None,
        }
    }
    pub fn inn(&self, k: &Pubkey) -> Option<&InItem> {
        match self.st.get(k) {
            Some(St::In(_, o)) => Some(o),
            _ => None,
        }
    }
    fn fee(&self, amount: u64) -> u64 {
        match self.kind {
            TokKind::Fee { bps, max } => {
                let f = (amount as u128 * bps as u128 + 9999) / 10000;
                (f as u64).min(max)
            }
            _ => 0,
        }
    }
    fn count_hook(&mut self) {
        if self.kind == TokKind::Hook {
            let k = pda(&[b"counter"], &P::hook());
            if let Some(St::Counter(n)) = self.st.get_mut(&k) {
                *n += 1;
            }
        }
    }
    fn post(&mut self, prog: &Pubkey, account: Pubkey, payload: Vec<u8>) {
        let e = emitter(prog);
        let sk = sequence(&e);
        let n = match self.st.get(&sk) {
            Some(St::Seq(n)) => *n,
            _ => 0,
        };
        self.st.insert(sk, St::Seq(n + 1));
        if let Some(St::FeeCollector(l)) = self.st.get_mut(&fee_collector()) {
            *l += self.wh_fee;
        }
        self.st.insert(
            account,
            St::Posted(Posted {
                consistency: 32,
                nonce: 0,
                sequence: n,
                emitter_chain: 1,
                emitter: e.to_bytes(),
                payload,
            }),
        );
    }

    pub fn apply(&mut self, c: &Call) -> Result<Did, Rej> {
        let now = self.now;
        let mut rej: Rej = vec![];
        macro_rules! need {
            ($cond:expr, $why:expr, $tags:expr) => {
                if !$cond {
                    rej.push(($why, $tags));
                }
            };
        }
        macro_rules! stop {
            () => {
                if !rej.is_empty() {
                    return Err(rej);
                }
            };
        }
        let mut did = Did::default();
        if let Call::Initialize {
            deployer,
            mint,
            chain,
            limit,
            mode,
            ..
        } = c
        {
            need!(self.cfg().is_none(), "initialized twice", &["C20"]);
            need!(
                self.upgrade_auth() == Some(*deployer),
                "initialize not signed by the upgrade authority",
                &["C20"]
            );
            need!(
                *mode == 0 || self.mint_authority == Some(token_authority()),
                "burning mode with foreign mint authority",
                &["C20"]
            );
            need!(*mode <= 1, "unknown mode", &["C20"]);
            stop!();
            let custody = ata(&token_authority(), mint, &self.token_program);
            self.st.insert(
                config(),
                St::Config(Cfg {
                    owner: *deployer,
                    pending: None,
                    mint: *mint,
                    token_program: self.token_program,
                    mode: *mode,
                    chain: *chain,
                    next_id: 0,
                    threshold: 1,
                    enabled: 0,
                    paused: false,
                    custody,
                }),
            );
            self.st.insert(outbox_rl(), St::OutRl(Rl::new(*limit)));
            self.st.entry(custody).or_insert(St::Tok(Tok {
                mint: *mint,
                owner: token_authority(),
                amount: 0,
                delegate: None,
                delegated: 0,
                frozen: false,
            }));
            return Ok(did);
        }
        let cfg = match self.cfg() {
            Some(c) => c.clone(),
            None => return Err(vec![("not initialized", &["C18", "C20"])]),
        };
        match c {
            Call::Initialize { .. } => unreachable!(),
            Call::InitLut { slot, .. } => {
                need!(
                    self.slots.0 <= *slot && *slot <= self.slots.1,
                    "lookup table slot not recent",
                    &["C26"]
                );
                let t = lut_table(*slot);
                let mut v = match self.st.get(&t) {
                    Some(St::Table(v)) => v.clone(),
                    _ => vec![],
                };
                need!(v.len() + 14 <= 256, "lookup table full", &["C26"]);
                stop!();
                let e = emitter(&P::ntt());
                v.push(P::ntt());
                v.extend([
                    config(),
                    cfg.custody,
                    cfg.token_program,
                    cfg.mint,
                    token_authority(),
                    outbox_rl(),
                ]);
                v.extend(wormhole_metas(&e).iter().map(|m| m.pubkey));
                self.st.insert(t, St::Table(v));
                self.st.insert(lut(), St::Lut(t));
            }
            Call::Transfer {
                from,
                burn,
                req,
                outbox,
                session,
                ..
            } => {
                need!(!cfg.paused, "paused", &["C14"]);
                need!(cfg.enabled != 0, "no enabled transceiver", &["C03", "C19"]);
                need!((cfg.mode == 1) == *burn, "wrong mode", &["C20"]);
                need!(
                    !self.st.contains_key(outbox),
                    "outbox account in use",
                    &["C03", "C18"]
                );
                let p = self.peer(req.chain);
                need!(p.is_some(), "no peer for the destination chain", &["C03"]);
                let f = self.tok(from).cloned();
                need!(
                    f.as_ref().map(|f| f.mint == cfg.mint).unwrap_or(false),
                    "source is not an account of the token",
                    &["C18"]
                );
                if let Some(f) = &f {
                    need!(
                        *session == session_authority(&f.owner, req),
                        "authority of another request",
                        &["C17", "C18"]
                    );
                }
                if p.is_none() || f.is_none() {
                    return Err(rej);
                }
                let (mgr, pd) = p.unwrap();
                let f = f.unwrap();
                let t = trim(req.amount, self.decimals(), pd);
                need!(t.is_some(), "amount not representable", &["C02", "C03"]);
                if t.is_none() {
                    return Err(rej);
                }
                let (amount, wire, wd) = t.unwrap();
                need!(f.delegate == Some(*session), "not approved", &["C17"]);
                if f.delegate == Some(*session) {
                    need!(f.delegated >= amount, "allowance too small", &["C17"]);
                }
                need!(f.amount >= amount, "balance too small", &["C03", "C05"]);
                need!(
                    !f.frozen && !self.tok(&cfg.custody).unwrap().frozen,
                    "token account frozen",
                    &["C03", "C05"]
                );
                need!(
                    self.fee(amount) == 0,
                    "token charges a fee",
                    &["C03", "C05"]
                );
                let rl = *self.out_rl().unwrap();
                let cons = { rl.clone() }.consume(now, amount);
                need!(
                    cons.is_ok() || req.queue,
                    "over the rate limit without queueing",
                    &["C11"]
                );
                stop!();
                {
                    let s = self.tok_mut(from);
                    s.amount -= amount;
                    s.delegated -= amount;
                    if s.delegated == 0 {
                        s.delegate = None;
                    }
                }
                self.count_hook();
                if *burn {
                    *self.supply() -= amount;
                } else {
                    self.tok_mut(&cfg.custody).amount += amount;
                }
                let release = match cons {
                    Ok(t) => {
                        let _ = self.out_rl_mut().consume(now, amount);
                        self.in_rl_mut(req.chain).refill(now, amount);
                        t
                    }
                    Err(t) => {
                        did.delayed = true;
                        t
                    }
                };
                did.moved = Some(amount);
                did.hooked = Some(amount);
                self.st.insert(
                    *outbox,
                    St::Out(OutItem {
                        amount: wire,
                        decimals: wd,
                        sender: f.owner,
                        chain: req.chain,
                        mgr,
                        to: req.to,
                        release,
                        released: 0,
                    }),
                );
            }
            Call::Redeem {
                msg, transceiver, ..
            } => {
                need!(cfg.threshold > 0, "zero threshold", &["C08"]);
                let id = self.reg(transceiver);
                need!(id.is_some(), "transceiver not registered", &["C08", "C19"]);
                if let Some(id) = id {
                    need!(
                        cfg.enabled >> id & 1 == 1,
                        "transceiver disabled",
                        &["C08", "C19"]
                    );
                }
                let (owner, ch, x) = match self.st.get(msg) {
                    Some(St::Msg(o, c, x)) => (*o, *c, x.clone()),
                    _ => {
                        rej.push(("no such message", &["C07", "C18"]));
                        return Err(rej);
                    }
                };
                need!(
                    owner == *transceiver,
                    "message not from this transceiver",
                    &["C08", "C07", "C18"]
                );
                let p = self.peer(ch);
                need!(
                    p.map(|p| p.0 == x.source_mgr).unwrap_or(false),
                    "source manager is not the peer of its chain",
                    &["C07"]
                );
                need!(
                    x.to_chain == cfg.chain,
                    "message for another chain",
                    &["C07"]
                );
                need!(
                    x.recipient_mgr == P::ntt().to_bytes(),
                    "message for another manager",
                    &["C07"]
                );
                let amt = scale(x.amount, x.decimals, self.decimals());
                need!(amt.is_some(), "amount does not fit", &["C02", "C04"]);
                stop!();
                let (amt, id) = (amt.unwrap(), id.unwrap());
                let h = x.digest(ch);
                let k = inbox_item(&h);
                let mut it = self.inn(&k).cloned().unwrap_or(InItem {
                    amount: amt,
                    recipient: Pubkey::new_from_array(x.to),
                    votes: 0,
                    status: Status::NotApproved,
                });
                it.votes |= 1u128 << id;
                if ((it.votes & cfg.enabled).count_ones() as u8) < cfg.threshold {
                    did.vote_only = true;
                } else {
                    need!(
                        it.status == Status::NotApproved,
                        "already approved",
                        &["C06"]
                    );
                    stop!();
                    let t = match self.in_rl_mut(ch).consume(now, amt) {
                        Ok(t) => {
                            self.out_rl_mut().refill(now, amt);
                            t
                        }
                        Err(t) => {
                            did.delayed = true;
                            t
                        }
                    };
                    did.approved = true;
                    it.status = Status::After(t);
                }
                self.st.insert(k, St::In(h, it));
            }
            Call::ReleaseIn {
                item, mint, revert, ..
            } => {
                need!(!cfg.paused, "paused", &["C14"]);
                need!((cfg.mode == 1) == *mint, "wrong mode", &["C20"]);
                let it = match self.inn(item) {
                    Some(i) => i.clone(),
                    None => {
                        rej.push(("no such inbox item", &["C04", "C18"]));
                        return Err(rej);
                    }
                };
                let to = ata(&it.recipient, &cfg.mint, &cfg.token_program);
                need!(
                    self.tok(&to).is_some(),
                    "recipient account does not exist",
                    &["C04"]
                );
                match it.status {
                    Status::Released => rej.push(("already released", &["C06"])),
                    Status::NotApproved => {
                        did.noop = true;
                        need!(!*revert, "not approved", &["C08", "C12"]);
                    }
                    Status::After(t) if t > now => {
                        did.noop = true;
                        need!(!*revert, "released too early", &["C12"]);
                    }
                    _ => {}
                }
                if did.noop {
                    stop!();
                    return Ok(did);
                }
                if *mint {
                    need!(
                        self.supply().checked_add(it.amount).is_some(),
                        "supply overflow",
                        &["C05"]
                    );
                } else {
                    need!(
                        self.tok(&cfg.custody).unwrap().amount >= it.amount,
                        "custody too small",
                        &["C04", "C05"]
                    );
                }
                need!(
                    !self.tok(&cfg.custody).unwrap().frozen,
                    "custody frozen",
                    &["C04", "C05"]
                );
                need!(
                    !self.tok(&to).map(|t| t.frozen).unwrap_or(false),
                    "recipient account frozen",
                    &["C04"]
                );
                if to != cfg.custody {
                    if let Some(t) = self.tok(&to) {
                        need!(
                            t.amount.checked_add(it.amount).is_some(),
                            "balance overflow",
                            &["C05"]
                        );
                    }
                }
                stop!();
                if *mint {
                    *self.supply() += it.amount;
                    self.tok_mut(&cfg.custody).amount += it.amount;
                }
                self.tok_mut(&cfg.custody).amount -= it.amount;
                self.tok_mut(&to).amount += it.amount;
                if to != cfg.custody {
                    // a transfer of an account to itself runs no hook
                    self.count_hook();
                    did.hooked = Some(it.amount);
                }
                did.moved = Some(it.amount);
                if let Some(St::In(_, i)) = self.st.get_mut(item) {
                    i.status = Status::Released;
                }
            }
            Call::Nominate {
                signer,
                new_owner,
                one_step,
            } => {
                need!(*signer == cfg.owner, "not the owner", &["C15", "C16"]);
                need!(
                    self.upgrade_auth() == Some(*signer),
                    "owner does not hold the upgrade authority",
                    &["C16"]
                );
                stop!();
                let pd = program_data(&P::ntt());
                let c = self.cfg_mut();
                if *one_step {
                    c.pending = None;
                    c.owner = *new_owner;
                    self.st.insert(pd, St::ProgData(Some(*new_owner)));
                } else {
                    c.pending = Some(*new_owner);
                    self.st.insert(pd, St::ProgData(Some(upgrade_lock())));
                }
            }
            Call::Claim { who } => {
                need!(
                    cfg.pending == Some(*who) || cfg.owner == *who,
                    "claimed by neither nominee nor owner",
                    &["C16", "C15"]
                );
                need!(
                    self.upgrade_auth() == Some(upgrade_lock()),
                    "claimed without a pending transfer",
                    &["C16"]
                );
                stop!();
                let c = self.cfg_mut();
                c.pending = None;
                c.owner = *who;
                self.st
                    .insert(program_data(&P::ntt()), St::ProgData(Some(*who)));
            }
            Call::SetPeer {
                signer,
                chain,
                addr,
                limit,
                decimals,
                ..
            } => {
                need!(*signer == cfg.owner, "not the owner", &["C15"]);
                stop!();
                self.st
                    .insert(peer(*chain), St::Peer(*chain, *addr, *decimals));
                self.st
                    .insert(inbox_rl(*chain), St::InRl(*chain, Rl::new(*limit)));
            }
            Call::Register {
                signer,
                transceiver,
                ..
            } => {
                need!(*signer == cfg.owner, "not the owner", &["C15"]);
                need!(
                    executable(transceiver),
                    "transceiver is not a program",
                    &["C19"]
                );
                need!(
                    self.reg(transceiver).is_none(),
                    "registered twice",
                    &["C19"]
                );
                need!(cfg.next_id < 128, "too many transceivers", &["C19"]);
                stop!();
                let c = self.cfg_mut();
                c.next_id += 1;
                c.enabled |= 1u128 << cfg.next_id;
                self.st
                    .insert(registered(transceiver), St::Reg(*transceiver, cfg.next_id));
            }
            Call::SetOutLimit { signer, limit } => {
                need!(*signer == cfg.owner, "not the owner", &["C15"]);
                stop!();
                self.out_rl_mut().set_limit(now, *limit);
            }
            Call::SetInLimit {
                signer,
                chain,
                limit,
            } => {
                need!(*signer == cfg.owner, "not the owner", &["C15"]);
                need!(
                    self.in_rl(*chain).is_some(),
                    "no peer for the chain",
                    &["C15"]
                );
                stop!();
                self.in_rl_mut(*chain).set_limit(now, *limit);
            }
            Call::SetPaused { signer, paused } => {
                need!(*signer == cfg.owner, "not the owner", &["C15", "C14"]);
                stop!();
                self.cfg_mut().paused = *paused;
            }
            Call::Mark {
                by,
                outbox,
                transceiver,
                ..
            } => {
                need!(!cfg.paused, "paused", &["C14", "C24"]);
                let id = self.reg(transceiver);
                need!(id.is_some(), "transceiver not registered", &["C24", "C09"]);
                need!(
                    matches!(by, MarkBy::Fake(i) if P::fake_transceiver(*i) == *transceiver),
                    "not signed by the transceiver",
                    &["C24", "C09"]
                );
                let o = self.out(outbox).cloned();
                need!(o.is_some(), "no such outbox item", &["C24", "C18"]);
                if let Some(id) = id {
                    need!(
                        cfg.enabled >> id & 1 == 1,
                        "transceiver disabled",
                        &["C24", "C09"]
                    );
                    if let Some(o) = &o {
                        need!(
                            o.released >> id & 1 == 0,
                            "already published",
                            &["C24", "C09"]
                        );
                    }
                }
                stop!();
                let o = o.unwrap();
                if o.release > now {
                    did.noop = true;
                    did.flag = Some(false);
                } else {
                    did.flag = Some(true);
                    if let Some(St::Out(o)) = self.st.get_mut(outbox) {
                        o.released |= 1u128 << id.unwrap();
                    }
                }
            }
            Call::SetXPeer {
                prog,
                signer,
                chain,
                addr,
                ..
            } => {
                need!(*signer == cfg.owner, "not the owner", &["C15", "C24"]);
                need!(
                    self.xpeer(prog, *chain).is_none(),
                    "transceiver peer overwritten",
                    &["C15", "C24"]
                );
                stop!();
                self.st
                    .insert(xpeer(prog, *chain), St::XPeer(*prog, *chain, *addr));
            }
            Call::Receive { prog, vaa, .. } => {
                need!(!cfg.paused, "paused", &["C14"]);
                let v = match self.vaas.get(vaa) {
                    Some(v) => v.clone(),
                    None => {
                        rej.push(("no such attested message", &["C07", "C24", "C18"]));
                        return Err(rej);
                    }
                };
                need!(
                    self.xpeer(prog, v.chain) == Some(v.emitter),
                    "emitter is not the peer of its chain",
                    &["C07", "C24"]
                );
                let x = match &v.body {
                    Some(x) => x.clone(),
                    None => {
                        rej.push(("malformed message", &["C01", "C07", "C24"]));
                        return Err(rej);
                    }
                };
                need!(
                    x.to_chain == cfg.chain,
                    "message for another chain",
                    &["C07", "C24"]
                );
                let k = xmsg(prog, v.chain, &x.id);
                need!(
                    !self.st.contains_key(&k),
                    "message received twice",
                    &["C06", "C24", "C07"]
                );
                stop!();
                self.st.insert(k, St::Msg(*prog, v.chain, x));
            }
            Call::ReleaseOut {
                prog,
                outbox,
                revert,
                ..
            } => {
                let alone = *prog == P::standalone();
                let t: Tags = if alone { &["C09", "C24"] } else { &["C09"] };
                need!(
                    !cfg.paused,
                    "paused",
                    if alone {
                        &["C14", "C24"][..]
                    } else {
                        &["C14"][..]
                    }
                );
                let id = self.reg(prog);
                need!(id.is_some(), "transceiver not registered", t);
                let o = self.out(outbox).cloned();
                need!(o.is_some(), "no such outbox item", t);
                if let Some(id) = id {
                    need!(cfg.enabled >> id & 1 == 1, "transceiver disabled", t);
                    if let Some(o) = &o {
                        need!(o.released >> id & 1 == 0, "published twice", t);
                    }
                }
                stop!();
                let (o, id) = (o.unwrap(), id.unwrap());
                if o.release > now {
                    need!(!*revert, "published too early", t);
                    stop!();
                    did.noop = true;
                    return Ok(did);
                }
                if let Some(St::Out(o)) = self.st.get_mut(outbox) {
                    o.released |= 1u128 << id;
                }
                let x = Xfer {
                    source_mgr: P::ntt().to_bytes(),
                    recipient_mgr: o.mgr,
                    id: outbox.to_bytes(),
                    sender: o.sender.to_bytes(),
                    amount: o.amount,
                    decimals: o.decimals,
                    token: cfg.mint.to_bytes(),
                    to: o.to,
                    to_chain: o.chain,
                };
                did.posted = true;
                self.post(prog, wh_message(prog, outbox), x.wire(&[]));
            }
            Call::BroadcastId { prog, msg, .. } => {
                need!(
                    !self.st.contains_key(msg),
                    "message account in use",
                    &["C25"]
                );
                stop!();
                did.posted = true;
                let d = self.decimals();
                self.post(
                    prog,
                    *msg,
                    info_payload(&P::ntt().to_bytes(), cfg.mode, &cfg.mint.to_bytes(), d),
                );
            }
            Call::BroadcastPeer {
                prog, chain, msg, ..
            } => {
                need!(
                    !self.st.contains_key(msg),
                    "message account in use",
                    &["C25"]
                );
                let p = self.xpeer(prog, *chain);
                need!(p.is_some(), "no transceiver peer for the chain", &["C25"]);
                stop!();
                did.posted = true;
                self.post(prog, *msg, registration_payload(*chain, &p.unwrap()));
            }
        }
        Ok(did)
    }
}

pub fn executable(k: &Pubkey) -> bool {
    *k == P::ntt()
        || *k == P::standalone()
        || *k == P::quoter()
        || *k == P::governance()
        || *k == P::hook()
        || *k == P::token()
        || *k == P::token22()
        || *k == P::ata_program()
        || *k == P::noop_program()
        || *k == P::core_bridge_id()
        || (0..P::N_FAKE).any(|i| P::fake_transceiver(i) == *k)
        || is_extra_program(k)
}
/// programs that exist only to be registered
pub fn extra_program(i: u8) -> Pubkey {
    let mut k = [0xF1u8; 32];
    k[1] = i;
    Pubkey::new_from_array(k)
}
pub fn is_extra_program(k: &Pubkey) -> bool {
    let b = k.to_bytes();
    b[0] == 0xF1 && b[2..] == [0xF1; 30]
}
