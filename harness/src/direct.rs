//! Drivers that call the message, amount, limiter and bitmap types directly (no runtime).
use crate::engine::{Fail, Obs, Src};
use crate::layout::*;
use crate::model::{scale, Rl};
use example_native_token_transfers::{
    bitmap::Bitmap,
    queue::rate_limit::{RateLimitResult, RateLimitState},
};
use ntt_messages::{
    chain_id::ChainId,
    mode::Mode,
    ntt::{EmptyPayload, NativeTokenTransfer},
    ntt_manager::NttManagerMessage,
    transceiver::TransceiverMessage,
    transceivers::wormhole::{WormholeTransceiver, WormholeTransceiverInfo, WormholeTransceiverRegistration},
    trimmed_amount::TrimmedAmount,
};
use std::{
    io,
    panic::{catch_unwind, AssertUnwindSafe},
};
use wormhole_io::{Readable, TypePrefixedPayload, Writeable};

/// an application's additional payload: a tag byte and some bytes with their own length
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Extra(pub Vec<u8>);
impl anchor_lang::Space for Extra {
    const INIT_SPACE: usize = 0;
}
impl TypePrefixedPayload for Extra {
    const TYPE: Option<u8> = None;
}
impl Readable for Extra {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(r: &mut R) -> io::Result<Self> {
        let n = u16::read(r)? as usize;
        let mut v = vec![0; n];
        r.read_exact(&mut v)?;
        Ok(Extra(v))
    }
}
impl Writeable for Extra {
    fn written_size(&self) -> usize {
        2 + self.0.len()
    }
    fn write<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        (self.0.len() as u16).write(w)?;
        w.write_all(&self.0)
    }
}

/// the same with a type byte in front of it, which `write_payload` adds
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Typed(pub Extra);
pub const TYPED_TAG: u8 = 0x5A;
impl anchor_lang::Space for Typed {
    const INIT_SPACE: usize = 0;
}
impl TypePrefixedPayload for Typed {
    const TYPE: Option<u8> = Some(TYPED_TAG);
}
impl Readable for Typed {
    const SIZE: Option<usize> = None;
    fn read<R: io::Read>(r: &mut R) -> io::Result<Self> {
        Ok(Typed(Extra::read(r)?))
    }
}
impl Writeable for Typed {
    fn written_size(&self) -> usize {
        self.0.written_size()
    }
    fn write<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        self.0.write(w)
    }
}
/// additional payload: none, or (carries a type byte, contents)
type Ex = Option<(bool, Vec<u8>)>;

fn fail(site: &str, tags: &[&'static str], msg: String) -> Fail {
    Fail { site: site.into(), tags: tags.to_vec(), msg }
}
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

// ---------------------------------------------------------------------------------------------
// messages: an independent value, its documented bytes, and a reference decoder

#[derive(Clone, Debug, PartialEq, Eq)]
enum Val {
    /// transfer with optional additional payload
    Ntt(Xfer, Ex),
    Mgr(Xfer, Ex),
    Tx(Xfer, Ex, Vec<u8>),
    Info(B32, u8, B32, u8),
    Reg(u16, B32),
}
const KINDS: [&str; 11] = [
    "transfer",
    "transfer+payload",
    "manager",
    "manager+payload",
    "transceiver",
    "transceiver+payload",
    "info",
    "registration",
    "transfer+typed payload",
    "manager+typed payload",
    "transceiver+typed payload",
];
/// 0 no additional payload, 1 untyped, 2 typed
fn ex_of(kind: usize) -> u8 {
    match kind {
        1 | 3 | 5 => 1,
        8 | 9 | 10 => 2,
        _ => 0,
    }
}

fn ntt_bytes(x: &Xfer, e: &Ex) -> Vec<u8> {
    let mut v = x.ntt_payload();
    if let Some((typed, e)) = e {
        v.extend_from_slice(&((e.len() + 2 + *typed as usize) as u16).to_be_bytes());
        if *typed {
            v.push(TYPED_TAG);
        }
        v.extend_from_slice(&(e.len() as u16).to_be_bytes());
        v.extend_from_slice(e);
    }
    v
}
fn mgr_bytes(x: &Xfer, e: &Ex) -> Vec<u8> {
    let p = ntt_bytes(x, e);
    let mut v = x.id.to_vec();
    v.extend_from_slice(&x.sender);
    v.extend_from_slice(&(p.len() as u16).to_be_bytes());
    v.extend_from_slice(&p);
    v
}
fn bytes_of(v: &Val) -> Vec<u8> {
    match v {
        Val::Ntt(x, e) => ntt_bytes(x, e),
        Val::Mgr(x, e) => mgr_bytes(x, e),
        Val::Tx(x, e, t) => {
            let p = mgr_bytes(x, e);
            let mut o = vec![0x99, 0x45, 0xFF, 0x10];
            o.extend_from_slice(&x.source_mgr);
            o.extend_from_slice(&x.recipient_mgr);
            o.extend_from_slice(&(p.len() as u16).to_be_bytes());
            o.extend_from_slice(&p);
            o.extend_from_slice(&(t.len() as u16).to_be_bytes());
            o.extend_from_slice(t);
            o
        }
        Val::Info(m, mode, t, d) => info_payload(m, *mode, t, *d),
        Val::Reg(c, a) => registration_payload(*c, a),
    }
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
    /// a length prefix disagreed with what it precedes
    odd: bool,
}
impl<'a> R<'a> {
    fn n(&mut self, n: usize) -> Option<&'a [u8]> {
        let s = self.b.get(self.i..self.i + n)?;
        self.i += n;
        Some(s)
    }
    fn b32(&mut self) -> Option<B32> {
        Some(self.n(32)?.try_into().unwrap())
    }
    fn u16(&mut self) -> Option<u16> {
        Some(u16::from_be_bytes(self.n(2)?.try_into().unwrap()))
    }
    fn ntt(&mut self, x: &mut Xfer, extra: u8) -> Option<Ex> {
        if self.n(4)? != [0x99, 0x4E, 0x54, 0x54] {
            return None;
        }
        x.decimals = self.n(1)?[0];
        x.amount = u64::from_be_bytes(self.n(8)?.try_into().unwrap());
        x.token = self.b32()?;
        x.to = self.b32()?;
        x.to_chain = self.u16()?;
        if extra == 0 {
            return Some(None);
        }
        let l = self.u16()? as usize;
        let s = self.i;
        if extra == 2 && self.n(1)?[0] != TYPED_TAG {
            return None;
        }
        let k = self.u16()? as usize;
        let v = self.n(k)?.to_vec();
        if l != self.i - s {
            self.odd = true;
        }
        Some(Some((extra == 2, v)))
    }
    fn mgr(&mut self, x: &mut Xfer, extra: u8) -> Option<Ex> {
        x.id = self.b32()?;
        x.sender = self.b32()?;
        let l = self.u16()? as usize;
        let s = self.i;
        let e = self.ntt(x, extra)?;
        if self.i - s != l {
            self.odd = true;
        }
        Some(e)
    }
}
fn zero() -> Xfer {
    Xfer { source_mgr: [0; 32], recipient_mgr: [0; 32], id: [0; 32], sender: [0; 32], amount: 0, decimals: 0, token: [0; 32], to: [0; 32], to_chain: 0 }
}
/// (value, bytes consumed, length prefixes inconsistent)
fn reference(kind: usize, b: &[u8]) -> Option<(Val, usize, bool)> {
    let mut r = R { b, i: 0, odd: false };
    let mut x = zero();
    let extra = ex_of(kind);
    let v = match kind {
        0 | 1 | 8 => {
            let e = r.ntt(&mut x, extra)?;
            Val::Ntt(x, e)
        }
        2 | 3 | 9 => {
            let e = r.mgr(&mut x, extra)?;
            Val::Mgr(x, e)
        }
        4 | 5 | 10 => {
            if r.n(4)? != [0x99, 0x45, 0xFF, 0x10] {
                return None;
            }
            x.source_mgr = r.b32()?;
            x.recipient_mgr = r.b32()?;
            let l = r.u16()? as usize;
            let s = r.i;
            let e = r.mgr(&mut x, extra)?;
            if r.i - s != l {
                r.odd = true;
            }
            let n = r.u16()? as usize;
            let t = r.n(n)?.to_vec();
            Val::Tx(x, e, t)
        }
        6 => {
            if r.n(4)? != [0x9c, 0x23, 0xbd, 0x3b] {
                return None;
            }
            let m = r.b32()?;
            let mode = r.n(1)?[0];
            if mode > 1 {
                return None;
            }
            let t = r.b32()?;
            Val::Info(m, mode, t, r.n(1)?[0])
        }
        _ => {
            if r.n(4)? != [0x18, 0xfc, 0x67, 0xc2] {
                return None;
            }
            let c = r.u16()?;
            Val::Reg(c, r.b32()?)
        }
    };
    Some((v, r.i, r.odd))
}

trait Pay: TypePrefixedPayload + anchor_lang::Space + PartialEq {
    fn mk(e: &Ex) -> Self;
    fn un(&self) -> Ex;
}
impl Pay for EmptyPayload {
    fn mk(_: &Ex) -> Self {
        EmptyPayload {}
    }
    fn un(&self) -> Ex {
        None
    }
}
impl Pay for Extra {
    fn mk(e: &Ex) -> Self {
        Extra(e.clone().unwrap_or_default().1)
    }
    fn un(&self) -> Ex {
        Some((false, self.0.clone()))
    }
}
impl Pay for Typed {
    fn mk(e: &Ex) -> Self {
        Typed(Extra(e.clone().unwrap_or_default().1))
    }
    fn un(&self) -> Ex {
        Some((true, self.0 .0.clone()))
    }
}
fn mk_ntt<A: Pay>(x: &Xfer, e: &Ex) -> NativeTokenTransfer<A> {
    NativeTokenTransfer {
        amount: TrimmedAmount { amount: x.amount, decimals: x.decimals },
        source_token: x.token,
        to_chain: ChainId { id: x.to_chain },
        to: x.to,
        additional_payload: A::mk(e),
    }
}
fn un_ntt<A: Pay>(n: &NativeTokenTransfer<A>, x: &mut Xfer) -> Ex {
    x.amount = n.amount.amount;
    x.decimals = n.amount.decimals;
    x.token = n.source_token;
    x.to_chain = n.to_chain.id;
    x.to = n.to;
    n.additional_payload.un()
}
type Mg<A> = NttManagerMessage<NativeTokenTransfer<A>>;
type Tm<A> = TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<A>>;
fn mk_mgr<A: Pay>(x: &Xfer, e: &Ex) -> Mg<A> {
    NttManagerMessage { id: x.id, sender: x.sender, payload: mk_ntt(x, e) }
}
fn mk_tx<A: Pay>(x: &Xfer, e: &Ex, t: &[u8]) -> Tm<A> {
    TransceiverMessage::new(x.source_mgr, x.recipient_mgr, mk_mgr(x, e), t.to_vec())
}

fn enc<T: TypePrefixedPayload>(m: &T) -> (Vec<u8>, usize) {
    (m.to_vec_payload(), m.written_size())
}
fn encode(v: &Val) -> (Vec<u8>, usize) {
    match v {
        Val::Ntt(x, None) => enc(&mk_ntt::<EmptyPayload>(x, &None)),
        Val::Ntt(x, e @ Some((true, _))) => enc(&mk_ntt::<Typed>(x, e)),
        Val::Ntt(x, e) => enc(&mk_ntt::<Extra>(x, e)),
        Val::Mgr(x, None) => enc(&mk_mgr::<EmptyPayload>(x, &None)),
        Val::Mgr(x, e @ Some((true, _))) => enc(&mk_mgr::<Typed>(x, e)),
        Val::Mgr(x, e) => enc(&mk_mgr::<Extra>(x, e)),
        Val::Tx(x, None, t) => enc(&mk_tx::<EmptyPayload>(x, &None, t)),
        Val::Tx(x, e @ Some((true, _)), t) => enc(&mk_tx::<Typed>(x, e, t)),
        Val::Tx(x, e, t) => enc(&mk_tx::<Extra>(x, e, t)),
        Val::Info(m, mode, t, d) => enc(&WormholeTransceiverInfo {
            manager_address: *m,
            manager_mode: if *mode == 0 { Mode::Locking } else { Mode::Burning },
            token_address: *t,
            token_decimals: *d,
        }),
        Val::Reg(c, a) => enc(&WormholeTransceiverRegistration { chain_id: ChainId { id: *c }, transceiver_address: *a }),
    }
}
fn decode(kind: usize, b: &[u8]) -> Option<(Val, usize)> {
    let mut r = b;
    fn ntt<A: Pay>(r: &mut &[u8]) -> Option<Val> {
        let m = NativeTokenTransfer::<A>::read_payload(r).ok()?;
        let mut x = zero();
        let e = un_ntt(&m, &mut x);
        Some(Val::Ntt(x, e))
    }
    fn mgr<A: Pay>(r: &mut &[u8]) -> Option<Val> {
        let m = Mg::<A>::read_payload(r).ok()?;
        let mut x = zero();
        x.id = m.id;
        x.sender = m.sender;
        let e = un_ntt(&m.payload, &mut x);
        Some(Val::Mgr(x, e))
    }
    fn tx<A: Pay>(r: &mut &[u8]) -> Option<Val> {
        let m = Tm::<A>::read_payload(r).ok()?;
        let mut x = zero();
        x.source_mgr = m.source_ntt_manager;
        x.recipient_mgr = m.recipient_ntt_manager;
        x.id = m.ntt_manager_payload.id;
        x.sender = m.ntt_manager_payload.sender;
        let e = un_ntt(&m.ntt_manager_payload.payload, &mut x);
        Some(Val::Tx(x, e, m.transceiver_payload.clone()))
    }
    let v = match kind {
        0 => ntt::<EmptyPayload>(&mut r)?,
        1 => ntt::<Extra>(&mut r)?,
        2 => mgr::<EmptyPayload>(&mut r)?,
        3 => mgr::<Extra>(&mut r)?,
        4 => tx::<EmptyPayload>(&mut r)?,
        5 => tx::<Extra>(&mut r)?,
        8 => ntt::<Typed>(&mut r)?,
        9 => mgr::<Typed>(&mut r)?,
        10 => tx::<Typed>(&mut r)?,
        6 => {
            let m = WormholeTransceiverInfo::read_payload(&mut r).ok()?;
            Val::Info(m.manager_address, if m.manager_mode == Mode::Locking { 0 } else { 1 }, m.token_address, m.token_decimals)
        }
        _ => {
            let m = WormholeTransceiverRegistration::read_payload(&mut r).ok()?;
            Val::Reg(m.chain_id.id, m.transceiver_address)
        }
    };
    Some((v, b.len() - r.len()))
}

fn gen_b32(s: &mut Src) -> B32 {
    match s.below(4) {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => s.bytes32(),
    }
}
fn gen_xfer(s: &mut Src) -> Xfer {
    Xfer {
        source_mgr: gen_b32(s),
        recipient_mgr: gen_b32(s),
        id: gen_b32(s),
        sender: gen_b32(s),
        amount: s.mag64(),
        decimals: s.below(256) as u8,
        token: gen_b32(s),
        to: gen_b32(s),
        to_chain: s.below(65536) as u16,
    }
}
fn gen_val(s: &mut Src, kind: usize) -> Val {
    let e = |s: &mut Src, k: usize| match ex_of(k) {
        0 => None,
        x => {
            // everything up to what the enclosing 16-bit lengths can announce
            let b = match s.weighted(&[6, 3, 1, 1]) {
                0 => s.bytes(60),
                1 => vec![0xC3; s.range(200, 700) as usize],
                2 => vec![0x3C; s.below(65_000) as usize],
                _ => vec![0x5A; 65_300 - s.below(300) as usize],
            };
            Some((x == 2, b))
        }
    };
    match kind {
        0 | 1 | 8 => {
            let mut x = gen_xfer(s);
            (x.source_mgr, x.recipient_mgr, x.id, x.sender) = ([0; 32], [0; 32], [0; 32], [0; 32]);
            Val::Ntt(x, e(s, kind))
        }
        2 | 3 | 9 => {
            let mut x = gen_xfer(s);
            (x.source_mgr, x.recipient_mgr) = ([0; 32], [0; 32]);
            Val::Mgr(x, e(s, kind))
        }
        4 | 5 | 10 => {
            let x = gen_xfer(s);
            let t = match s.below(4) {
                0 | 1 => vec![],
                2 => s.bytes(300),
                _ => vec![0xAB; s.below(65536) as usize],
            };
            let ex = e(s, kind);
            Val::Tx(x, ex, t)
        }
        6 => Val::Info(gen_b32(s), s.below(2) as u8, gen_b32(s), s.below(256) as u8),
        _ => Val::Reg(s.below(65536) as u16, gen_b32(s)),
    }
}

pub fn codec(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    let kind = s.idx(11);
    let name = KINDS[kind];
    obs.mix(name);
    let v = gen_val(s, kind);
    let want = bytes_of(&v);
    obs.mixn(crate::engine::hash_bytes(&want));
    obs.ops += 1;
    let (got, size) = guarded(|| encode(&v)).map_err(|p| fail(&format!("encode-panic:{name}"), &["C01"], format!("encoding {v:?} panicked: {p}")))?;
    if got != want {
        return Err(fail(&format!("layout:{name}"), &["C01"], format!("{v:?} encodes to {got:02x?}, documented layout is {want:02x?}")));
    }
    if size != want.len() {
        return Err(fail(&format!("size:{name}"), &["C01"], format!("{v:?} reports size {size} but writes {} bytes", want.len())));
    }
    let mut cmp = |b: &[u8], what: &'static str, obs: &mut Obs| -> Result<(), Fail> {
        let refd = reference(kind, b);
        let d = guarded(|| decode(kind, b)).map_err(|p| fail(&format!("decode-panic:{name}"), &["C01"], format!("decoding {b:02x?} panicked: {p}")))?;
        obs.ops += 1;
        match (refd, d) {
            (None, None) => {
                obs.class("input rejected");
                Ok(())
            }
            (Some((_, _, true)), None) => Ok(()),
            (Some((r, n, _)), Some((g, m))) if r == g && n == m => {
                obs.class("input decoded");
                Ok(())
            }
            (r, g) => Err(fail(&format!("decode:{name}:{what}"), &["C01"], format!("decoding {b:02x?} gives {g:?}, documented layout gives {r:?}"))),
        }
    };
    obs.class("round trip");
    cmp(&want, "round-trip", obs)?;
    if want.len() < 2000 {
        // trailing bytes are left unread
        let mut t = want.clone();
        t.extend_from_slice(&[1, 2, 3]);
        cmp(&t, "trailing", obs)?;
        let cut = s.idx(want.len());
        obs.class("truncated input");
        cmp(&want[..cut], "truncated", obs)?;
        let mut m = want.clone();
        let n = 1 + s.below(3);
        for _ in 0..n {
            let i = if s.bool() { s.idx(m.len().min(8)) } else { s.idx(m.len()) };
            match s.below(3) {
                0 => m[i] ^= 1 << s.below(8),
                1 => m[i] = s.below(256) as u8,
                _ => {
                    let j = s.idx(m.len());
                    m.swap(i, j);
                }
            }
        }
        obs.class("mutated input");
        cmp(&m, "mutated", obs)?;
        let junk = s.bytes(64);
        cmp(&junk, "junk", obs)?;
    }
    // identity
    if let Val::Mgr(x, e) = &v {
        let ch = s.below(65536) as u16;
        let id = ChainId { id: ch };
        let h = guarded(|| match e {
            None => mk_mgr::<EmptyPayload>(x, e).keccak256(id).to_bytes(),
            Some((true, _)) => mk_mgr::<Typed>(x, e).keccak256(id).to_bytes(),
            _ => mk_mgr::<Extra>(x, e).keccak256(id).to_bytes(),
        })
        .map_err(|p| fail("identity-panic", &["C01"], p))?;
        obs.class("identity");
        let mut pre = ch.to_be_bytes().to_vec();
        pre.extend(mgr_bytes(x, e));
        let want = anchor_lang::solana_program::keccak::hash(&pre).to_bytes();
        if e.is_none() && want != x.digest(ch) {
            panic!("reference identities differ");
        }
        if h != want {
            return Err(fail("identity", &["C01", "C06"], format!("identity of {x:?} from chain {ch} is {h:02x?}, must be {want:02x?}")));
        }
    }
    // the view of a received message that redeeming works with
    if let Val::Tx(x, None, _) = &v {
        use anchor_lang::AnchorSerialize;
        use ntt_messages::transceiver::{TransceiverMessageData, TransceiverMessageDataBytes};
        type N = NativeTokenTransfer<EmptyPayload>;
        let got = guarded(|| {
            let d: TransceiverMessageData<N> = TransceiverMessageData {
                source_ntt_manager: x.source_mgr,
                recipient_ntt_manager: x.recipient_mgr,
                ntt_manager_payload: mk_mgr::<EmptyPayload>(x, &None),
            };
            let b = d.try_to_vec().unwrap();
            let w = TransceiverMessageDataBytes::<N>::parse(&b);
            let mut y = x.clone();
            y.source_mgr = w.source_ntt_manager();
            y.recipient_mgr = w.recipient_ntt_manager();
            let m = w.ntt_manager_payload();
            y.id = m.id;
            y.sender = m.sender;
            un_ntt(&m.payload, &mut y);
            y
        })
        .map_err(|p| fail("stored-view-panic", &["C01", "C07"], p))?;
        obs.class("stored view");
        if got != *x {
            return Err(fail("stored-view", &["C01", "C07"], format!("the stored form of {x:?} reads as {got:?}")));
        }
    }
    obs.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// amounts

pub fn amounts(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    let dec = |s: &mut Src| match s.below(4) {
        0 => *s.pick(&[8u8, 6, 9, 18, 0, 7]),
        1 => s.below(20) as u8,
        2 => s.below(32) as u8,
        _ => s.below(256) as u8,
    };
    let (a, from, to) = (s.mag64(), dec(s), dec(s));
    // amounts at the edge of overflow of the conversion
    let a = if s.chance(1, 3) {
        match 10u64.checked_pow((to as i32 - from as i32).unsigned_abs()) {
            Some(f) => (u64::MAX / f).saturating_add(s.below(3)).saturating_sub(1),
            None => a,
        }
    } else {
        a
    };
    obs.mixn(a);
    obs.mixn((from as u64) << 8 | to as u64);
    obs.nontrivial = true;
    obs.ops += 1;
    // exact answer of a conversion; Err means "must fail", Either means the factor itself is out of range
    // and only a zero result or an error is right
    let exact = |a: u64, f: u8, t: u8| -> Result<Vec<Option<u64>>, ()> {
        Ok(match scale(a, f, t) {
            Some(v) => vec![Some(v)],
            None if f > t => vec![None, Some(0)],
            None if a == 0 => vec![None, Some(0)],
            None => vec![None],
        })
    };
    let chk = |what: &str, got: Option<u64>, a: u64, f: u8, t: u8| -> Result<(), Fail> {
        let w = exact(a, f, t).unwrap();
        if w.contains(&got) {
            Ok(())
        } else {
            Err(fail(&format!("amount:{what}"), &["C02"], format!("{what} of {a} from {f} to {t} decimals gives {got:?}, exact result is {:?}", w[0])))
        }
    };
    let p = |what: &str, p: String| fail(&format!("amount-panic:{what}"), &["C02"], format!("{what} of {a} from {from} to {to} decimals panicked: {p}"));
    let wire = TrimmedAmount::new(a, from);
    let un = guarded(|| wire.untrim(to).ok()).map_err(|e| p("untrim", e))?;
    chk("untrim", un, a, from, to)?;
    if un.is_none() {
        obs.class("conversion out of range");
    } else if from == to {
        obs.class("same decimals");
    } else if from > to {
        obs.class("rounded down");
    } else {
        obs.class("scaled up");
    }
    let wd = 8.min(from).min(to);
    let tr = guarded(|| TrimmedAmount::trim(a, from, to).ok()).map_err(|e| p("trim", e))?;
    chk("trim", tr.map(|t| t.amount), a, from, wd)?;
    if let Some(t) = tr {
        if t.decimals != wd {
            return Err(fail("amount:decimals", &["C02"], format!("{a} from {from} for peer {to} uses {} decimals, must use {wd}", t.decimals)));
        }
    }
    let mut rem = a;
    let t2 = guarded(|| TrimmedAmount::remove_dust(&mut rem, from, to).ok()).map_err(|e| p("remove_dust", e))?;
    match t2 {
        Some(t) => {
            chk("remove_dust", Some(t.amount), a, from, wd)?;
            let worth = (t.amount as u128).checked_mul(10u128.checked_pow((from - wd) as u32).unwrap_or(0));
            if Some(rem as u128) != worth && t.amount != 0 || t.amount == 0 && rem != 0 || rem > a || t.decimals != wd {
                return Err(fail("amount:dust", &["C02"], format!("{a} from {from} for peer {to}: takes {rem} for wire amount {t:?}")));
            }
            if rem != a {
                obs.class("dust left with the sender");
            }
            // trimmed, converted back and trimmed again is unchanged
            let again = guarded(|| TrimmedAmount::trim(rem, from, to).ok()).map_err(|e| p("trim again", e))?;
            if again.map(|x| (x.amount, x.decimals)) != Some((t.amount, t.decimals)) {
                return Err(fail("amount:idempotent", &["C02"], format!("{t:?} becomes {again:?} after conversion to {from} decimals and back")));
            }
        }
        None => {
            if scale(a, from, wd).is_some() {
                return Err(fail("amount:refused", &["C02"], format!("{a} from {from} for peer {to} is refused")));
            }
        }
    }
    let cd = guarded(|| wire.change_decimals(to).ok()).map_err(|e| p("change_decimals", e))?;
    chk("change_decimals", cd.map(|c| c.amount), a, from, to)?;
    if let Some(c) = cd {
        if c.decimals != to {
            return Err(fail("amount:change_decimals", &["C02"], format!("change_decimals to {to} gives {}", c.decimals)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// rate limiter

fn snapshot(r: &RateLimitState) -> Rl {
    Rl { limit: r.limit, cap: r.capacity_at_last_tx, last: r.last_tx_timestamp }
}

pub fn limiter(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    let mut now = match s.below(4) {
        0 => s.below(100) as i64,
        1 | 2 => 1_700_000_000 + s.below(100_000) as i64,
        _ => s.mag64() as i64 & (i64::MAX >> 2),
    };
    let limit = s.mag64();
    let mut real = RateLimitState::new(limit);
    if snapshot(&real) != Rl::new(limit) {
        return Err(fail("limiter:new", &["C10"], format!("new limiter {real:?}")));
    }
    let mut m = Rl::new(limit);
    if s.chance(1, 3) {
        let cap = match s.below(3) {
            0 => s.range(0, limit),
            1 => limit,
            _ => 0,
        };
        let last = now - s.below(200_000).min(now as u64) as i64;
        m = Rl { limit, cap, last };
        real = RateLimitState { limit, capacity_at_last_tx: cap, last_tx_timestamp: last };
    }
    obs.log(|| format!("start {m:?} at {now}"));
    let mut n = 0;
    while n < 60 && s.more(12) {
        s.begin();
        n += 1;
        let step = match s.below(7) {
            0 => 0,
            1 => s.below(10) as i64,
            2 => s.below(86_400) as i64,
            3 => 86_399 + s.below(3) as i64,
            4 => s.below(1 << 22) as i64,
            6 => s.below(1 << 40) as i64,
            _ => {
                let l = m.limit.max(1) as u128;
                ((86_400u128 * (1 + s.below(100) as u128)) / l).min(1 << 30) as i64
            }
        };
        now = now.saturating_add(step).min(i64::MAX - 86_400 * 2);
        crate::svm::set_direct_clock(Some(now));
        let cap = m.at(now);
        let near = |s: &mut Src, v: u64| match s.below(3) {
            0 => v,
            1 => v.saturating_add(1),
            _ => v.saturating_sub(1),
        };
        let before = real.clone();
        let what;
        let r: Result<Option<String>, String> = match s.below(4) {
            0 => {
                what = "capacity";
                guarded(|| real.capacity()).map(|c| if c != cap { Some(format!("capacity {c}, must be {cap}")) } else { None })
            }
            1 => {
                what = "consume";
                let amount = match s.below(4) {
                    0 => near(s, cap),
                    1 => s.range(0, cap),
                    2 => s.mag64(),
                    _ => near(s, m.limit),
                };
                obs.log(|| format!("consume {amount} at +{step}"));
                let want = m.consume(now, amount);
                if want.is_ok() {
                    obs.class("consumed");
                } else {
                    obs.class("delayed");
                }
                guarded(|| real.consume_or_delay(amount)).map(|g| {
                    let g2 = match g {
                        RateLimitResult::Consumed(t) => Ok(t),
                        RateLimitResult::Delayed(t) => Err(t),
                    };
                    if g2 != want {
                        Some(format!("consuming {amount} with capacity {cap} gives {g:?} at {now}"))
                    } else {
                        None
                    }
                })
            }
            2 => {
                what = "refill";
                let room = m.limit - cap;
                let amount = match s.below(4) {
                    0 => near(s, room),
                    1 => s.mag64(),
                    2 => s.range(0, room),
                    _ => near(s, m.limit),
                };
                obs.class("refilled");
                obs.log(|| format!("refill {amount} at +{step}"));
                m.refill(now, amount);
                guarded(|| real.refill(now, amount)).map(|_| None)
            }
            _ => {
                what = "set_limit";
                let l = match s.below(4) {
                    0 => s.mag64(),
                    1 => near(s, m.limit),
                    2 => near(s, m.limit - cap),
                    _ => s.range(0, m.limit),
                };
                if l < m.limit {
                    obs.class("limit lowered");
                } else {
                    obs.class("limit raised");
                }
                obs.log(|| format!("set_limit {l} at +{step}"));
                m.set_limit(now, l);
                guarded(|| real.set_limit(l)).map(|_| None)
            }
        };
        s.end();
        obs.ops += 1;
        obs.mix(what);
        obs.mixn(cap);
        match r {
            Err(p) => return Err(fail(&format!("limiter-panic:{what}"), &["C10"], format!("{what} on {before:?} at {now} panicked: {p}"))),
            Ok(Some(msg)) => return Err(fail(&format!("limiter:{what}"), &["C10"], format!("{before:?} at {now}: {msg}"))),
            Ok(None) => {}
        }
        if snapshot(&real) != m {
            return Err(fail(&format!("limiter-state:{what}"), &["C10"], format!("{what} on {before:?} at {now} leaves {real:?}, must leave {m:?}")));
        }
        if m.cap > m.limit {
            panic!("model limiter above its limit");
        }
        obs.nontrivial = true;
    }
    crate::svm::set_direct_clock(None);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// vote sets

pub fn bitmap(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    let start = match s.below(4) {
        0 => 0u128,
        1 => u128::MAX,
        _ => (s.raw64() as u128) << 64 | s.raw64() as u128,
    };
    let mut m: std::collections::BTreeSet<u8> = (0..128u8).filter(|i| start >> i & 1 == 1).collect();
    let mut b = Bitmap::from_value(start);
    let start = if s.chance(1, 4) { start ^ 1u128.rotate_left(s.below(128) as u32) } else { start };
    let e = match s.below(4) {
        0 | 1 => u128::MAX,
        2 => 0,
        _ => (s.raw64() as u128) << 64 | s.raw64() as u128,
    };
    let en = Bitmap::from_value(e);
    let check = |b: &Bitmap, m: &std::collections::BTreeSet<u8>| {
        let both = m.iter().filter(|i| e >> **i & 1 == 1).count();
        let got = guarded(|| (b.len(), b.is_empty(), b.count_enabled_votes(en) as usize)).map_err(|p| fail("bitmap-panic", &["C19"], p))?;
        if got != (m.len(), m.is_empty(), both) {
            return Err(fail("bitmap:count", &["C19", "C08"], format!("size, empty, votes are {got:?}, must be {:?}", (m.len(), m.is_empty(), both))));
        }
        Ok(())
    };
    check(&b, &m)?;
    let mut n = 0;
    while n < 60 && s.more(15) {
        s.begin();
        n += 1;
        obs.ops += 1;
        let i = match s.below(3) {
            0 => *s.pick(&[0u8, 127, 128, 255, 64, 63]),
            _ => s.below(256) as u8,
        };
        let val = s.bool();
        s.end();
        obs.mixn(i as u64 * 2 + val as u64);
        let r = guarded(|| b.set(i, val).is_ok()).map_err(|p| fail("bitmap-panic", &["C19"], p))?;
        if r != (i < 128) {
            return Err(fail("bitmap:set-range", &["C19"], format!("setting number {i} returned {r}")));
        }
        if i < 128 {
            if val {
                m.insert(i);
            } else {
                m.remove(&i);
            }
            obs.class("vote set changed");
        } else {
            obs.class("number out of range rejected");
        }
        for j in 0..=255u8 {
            let g = guarded(|| b.get(j).ok()).map_err(|p| fail("bitmap-panic", &["C19"], p))?;
            let w = if j < 128 { Some(m.contains(&j)) } else { None };
            if g != w {
                return Err(fail("bitmap:get", &["C19", "C08"], format!("membership of {j} is {g:?}, must be {w:?}")));
            }
        }
        check(&b, &m)?;
        obs.nontrivial = true;
    }
    Ok(())
}

/// the hash a session authority is derived from
pub fn request_hash(s: &mut Src, obs: &mut Obs) -> Result<(), Fail> {
    use example_native_token_transfers::instructions::TransferArgs;
    let r = Req { amount: s.mag64(), chain: s.below(65536) as u16, to: gen_b32(s), queue: s.bool() };
    let h = |r: &Req| {
        guarded(|| {
            TransferArgs { amount: r.amount, recipient_chain: ChainId { id: r.chain }, recipient_address: r.to, should_queue: r.queue }
                .keccak256()
                .to_bytes()
        })
        .map_err(|p| fail("request-hash-panic", &["C17"], p))
    };
    let mut q = r;
    match s.below(6) {
        0 => q.amount ^= 1 << s.below(64),
        1 => q.chain ^= 1 << s.below(16),
        2 => q.to[s.idx(32)] ^= 1 << s.below(8),
        3 => q.queue = !q.queue,
        4 => {
            // bits moved between neighbouring fields
            q.chain = r.chain.rotate_left(8);
            q.amount = r.amount.rotate_right(8);
        }
        _ => {
            q.to.reverse();
            q.amount = r.amount.swap_bytes();
        }
    }
    obs.ops += 1;
    obs.mixn(r.amount);
    obs.mixn(r.chain as u64);
    obs.nontrivial = q != r;
    let (a, b) = (h(&r)?, h(&q)?);
    if (a == b) != (r == q) {
        return Err(fail("request-hash", &["C17"], format!("{r:?} and {q:?} have hashes {a:02x?} and {b:02x?}")));
    }
    obs.class("request pair compared");
    Ok(())
}
