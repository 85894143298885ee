//! The harness's own description of the on-chain and wire formats: discriminators, derived addresses,
//! account encodings and cross-chain message encodings. Nothing here calls the code under test.
use crate::programs as P;
use solana_sdk::{
    hash::hash,
    instruction::{AccountMeta, Instruction},
    keccak,
    pubkey::Pubkey,
    system_program, sysvar,
};
use std::{cell::RefCell, collections::HashMap};

pub type B32 = [u8; 32];

pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    thread_local! { static C: RefCell<HashMap<String, [u8; 8]>> = RefCell::new(HashMap::new()); }
    let k = format!("{ns}:{name}");
    C.with(|c| {
        *c.borrow_mut()
            .entry(k.clone())
            .or_insert_with(|| hash(k.as_bytes()).to_bytes()[..8].try_into().unwrap())
    })
}
/// the same contents as an account of another type
pub fn retype(d: &mut [u8], s: &mut crate::engine::Src) {
    if d.len() >= 3 && &d[..3] == b"vaa" {
        d[..3].copy_from_slice(*s.pick(&[b"msg", b"msu", b"vab"]));
        return;
    }
    if d.len() < 8 {
        return;
    }
    let n = *s.pick(&[
        "Config", "OutboxItem", "InboxItem", "NttManagerPeer", "TransceiverPeer", "InboxRateLimit", "OutboxRateLimit",
        "RegisteredTransceiver", "ValidatedTransceiverMessage", "BridgeData", "LUT", "Instance", "RegisteredChain", "RegisteredNtt", "RelayRequest",
    ]);
    let n = acc_disc(n);
    if s.bool() || d[..8] == n {
        d[s.idx(8)] ^= 1 << s.below(8);
    } else {
        d[..8].copy_from_slice(&n);
    }
}
pub fn acc_disc(name: &str) -> [u8; 8] {
    disc("account", name)
}
pub fn ix_data(name: &str, args: &[u8]) -> Vec<u8> {
    let mut v = disc("global", name).to_vec();
    v.extend_from_slice(args);
    v
}

pub fn pda_b(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) {
    thread_local! { static C: RefCell<HashMap<Vec<u8>, (Pubkey, u8)>> = RefCell::new(HashMap::new()); }
    let mut k = program.to_bytes().to_vec();
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 50_000 {
            c.clear();
        }
        *c.entry(k)
            .or_insert_with(|| Pubkey::find_program_address(seeds, program))
    })
}
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    pda_b(seeds, program).0
}
pub fn npda(seeds: &[&[u8]]) -> Pubkey {
    pda(seeds, &P::ntt())
}

pub fn config() -> Pubkey {
    npda(&[b"config"])
}
pub fn outbox_rl() -> Pubkey {
    npda(&[b"outbox_rate_limit"])
}
pub fn inbox_rl(chain: u16) -> Pubkey {
    npda(&[b"inbox_rate_limit", &chain.to_be_bytes()])
}
pub fn peer(chain: u16) -> Pubkey {
    npda(&[b"peer", &chain.to_be_bytes()])
}
pub fn token_authority() -> Pubkey {
    npda(&[b"token_authority"])
}
pub fn upgrade_lock() -> Pubkey {
    npda(&[b"upgrade_lock"])
}
pub fn registered(t: &Pubkey) -> Pubkey {
    npda(&[b"registered_transceiver", t.as_ref()])
}
pub fn inbox_item(h: &B32) -> Pubkey {
    npda(&[b"inbox_item", h])
}
pub fn lut() -> Pubkey {
    npda(&[b"lut"])
}
pub fn lut_authority() -> Pubkey {
    npda(&[b"lut_authority"])
}
pub fn lut_table(slot: u64) -> Pubkey {
    pda(
        &[lut_authority().as_ref(), &slot.to_le_bytes()],
        &solana_sdk::address_lookup_table::program::id(),
    )
}
pub fn program_data(program: &Pubkey) -> Pubkey {
    pda(
        &[program.as_ref()],
        &solana_sdk::bpf_loader_upgradeable::id(),
    )
}
/// per transceiver program (the manager's built-in one, or the standalone one)
pub fn xpeer(prog: &Pubkey, chain: u16) -> Pubkey {
    pda(&[b"transceiver_peer", &chain.to_be_bytes()], prog)
}
pub fn xmsg(prog: &Pubkey, chain: u16, id: &B32) -> Pubkey {
    pda(&[b"transceiver_message", &chain.to_be_bytes(), id], prog)
}
pub fn emitter(prog: &Pubkey) -> Pubkey {
    pda(&[b"emitter"], prog)
}
pub fn wh_message(prog: &Pubkey, outbox: &Pubkey) -> Pubkey {
    pda(&[b"message", outbox.as_ref()], prog)
}
pub fn outbox_signer(prog: &Pubkey) -> Pubkey {
    pda(&[b"outbox_item_signer"], prog)
}
pub fn session_authority(owner: &Pubkey, r: &Req) -> Pubkey {
    let h = keccak::hashv(&[
        &r.amount.to_be_bytes(),
        &r.chain.to_be_bytes(),
        &r.to,
        &[r.queue as u8],
    ]);
    npda(&[b"session_authority", owner.as_ref(), h.as_ref()])
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, token_program: &Pubkey) -> Pubkey {
    pda(
        &[owner.as_ref(), token_program.as_ref(), mint.as_ref()],
        &P::ata_program(),
    )
}
pub fn bridge() -> Pubkey {
    pda(&[b"Bridge"], &P::core_bridge_id())
}
pub fn fee_collector() -> Pubkey {
    pda(&[b"fee_collector"], &P::core_bridge_id())
}
pub fn sequence(emitter: &Pubkey) -> Pubkey {
    pda(&[b"Sequence", emitter.as_ref()], &P::core_bridge_id())
}

/// what a user asks to transfer
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Req {
    pub amount: u64,
    pub chain: u16,
    pub to: B32,
    pub queue: bool,
}
impl Req {
    pub fn borsh(&self) -> Vec<u8> {
        let mut v = self.amount.to_le_bytes().to_vec();
        v.extend_from_slice(&self.chain.to_le_bytes());
        v.extend_from_slice(&self.to);
        v.push(self.queue as u8);
        v
    }
}

/// manager-level content of a cross-chain transfer message
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Xfer {
    pub source_mgr: B32,
    pub recipient_mgr: B32,
    pub id: B32,
    pub sender: B32,
    pub amount: u64,
    pub decimals: u8,
    pub token: B32,
    pub to: B32,
    pub to_chain: u16,
}

impl Xfer {
    pub fn ntt_payload(&self) -> Vec<u8> {
        let mut v = vec![0x99, 0x4E, 0x54, 0x54];
        v.push(self.decimals);
        v.extend_from_slice(&self.amount.to_be_bytes());
        v.extend_from_slice(&self.token);
        v.extend_from_slice(&self.to);
        v.extend_from_slice(&self.to_chain.to_be_bytes());
        v
    }
    pub fn manager_payload(&self) -> Vec<u8> {
        let p = self.ntt_payload();
        let mut v = self.id.to_vec();
        v.extend_from_slice(&self.sender);
        v.extend_from_slice(&(p.len() as u16).to_be_bytes());
        v.extend_from_slice(&p);
        v
    }
    pub fn wire(&self, transceiver_payload: &[u8]) -> Vec<u8> {
        let p = self.manager_payload();
        let mut v = vec![0x99, 0x45, 0xFF, 0x10];
        v.extend_from_slice(&self.source_mgr);
        v.extend_from_slice(&self.recipient_mgr);
        v.extend_from_slice(&(p.len() as u16).to_be_bytes());
        v.extend_from_slice(&p);
        v.extend_from_slice(&(transceiver_payload.len() as u16).to_be_bytes());
        v.extend_from_slice(transceiver_payload);
        v
    }
    pub fn digest(&self, from_chain: u16) -> B32 {
        keccak::hashv(&[&from_chain.to_be_bytes(), &self.manager_payload()]).to_bytes()
    }
    /// the account in which a transceiver presents a validated message to the manager
    pub fn validated(&self, from_chain: u16) -> Vec<u8> {
        let mut v = acc_disc("ValidatedTransceiverMessage").to_vec();
        v.extend_from_slice(&from_chain.to_le_bytes());
        v.extend_from_slice(&self.source_mgr);
        v.extend_from_slice(&self.recipient_mgr);
        v.extend_from_slice(&self.id);
        v.extend_from_slice(&self.sender);
        v.extend_from_slice(&self.amount.to_le_bytes());
        v.push(self.decimals);
        v.extend_from_slice(&self.token);
        v.extend_from_slice(&self.to_chain.to_le_bytes());
        v.extend_from_slice(&self.to);
        v
    }
}

pub fn info_payload(manager: &B32, mode: u8, token: &B32, decimals: u8) -> Vec<u8> {
    let mut v = vec![0x9c, 0x23, 0xbd, 0x3b];
    v.extend_from_slice(manager);
    v.push(mode);
    v.extend_from_slice(token);
    v.push(decimals);
    v
}
pub fn registration_payload(chain: u16, addr: &B32) -> Vec<u8> {
    let mut v = vec![0x18, 0xfc, 0x67, 0xc2];
    v.extend_from_slice(&chain.to_be_bytes());
    v.extend_from_slice(addr);
    v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Posted {
    pub consistency: u8,
    pub nonce: u32,
    pub sequence: u64,
    pub emitter_chain: u16,
    pub emitter: B32,
    pub payload: Vec<u8>,
}
/// decodes a core-bridge posted message account
pub fn decode_posted(d: &[u8]) -> Option<Posted> {
    if d.len() < 3 + 88 + 4 || (&d[..3] != b"msg" && &d[..3] != b"vaa") {
        return None;
    }
    let n = u32::from_le_bytes(d[91..95].try_into().unwrap()) as usize;
    Some(Posted {
        consistency: d[4],
        nonce: u32::from_le_bytes(d[45..49].try_into().unwrap()),
        sequence: u64::from_le_bytes(d[49..57].try_into().unwrap()),
        emitter_chain: u16::from_le_bytes(d[57..59].try_into().unwrap()),
        emitter: d[59..91].try_into().unwrap(),
        payload: d.get(95..95 + n)?.to_vec(),
    })
}
/// a posted VAA account as the core bridge writes it
pub fn posted_vaa(
    timestamp: u32,
    sequence: u64,
    emitter_chain: u16,
    emitter: &B32,
    payload: &[u8],
) -> Vec<u8> {
    let mut v = b"vaa".to_vec();
    v.push(1);
    v.push(32);
    v.extend_from_slice(&timestamp.to_le_bytes());
    v.extend_from_slice(&[0x51; 32]);
    v.extend_from_slice(&timestamp.to_le_bytes());
    v.extend_from_slice(&0u32.to_le_bytes());
    v.extend_from_slice(&sequence.to_le_bytes());
    v.extend_from_slice(&emitter_chain.to_le_bytes());
    v.extend_from_slice(emitter);
    v.extend_from_slice(&(payload.len() as u32).to_le_bytes());
    v.extend_from_slice(payload);
    v
}

pub fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
pub fn ws(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, true)
}
pub fn ix(program: Pubkey, accounts: Vec<AccountMeta>, name: &str, args: &[u8]) -> Instruction {
    Instruction {
        program_id: program,
        accounts,
        data: ix_data(name, args),
    }
}
pub fn wormhole_metas(emitter: &Pubkey) -> Vec<AccountMeta> {
    vec![
        w(bridge()),
        w(fee_collector()),
        w(sequence(emitter)),
        r(P::core_bridge_id()),
        r(system_program::id()),
        r(sysvar::clock::id()),
        r(sysvar::rent::id()),
    ]
}

// token accounts ---------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub delegated: u64,
    pub frozen: bool,
}
pub fn decode_tok(d: &[u8]) -> Option<Tok> {
    if d.len() < 165 {
        return None;
    }
    let k = |i: usize| Pubkey::new_from_array(d[i..i + 32].try_into().unwrap());
    let u = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let t = u32::from_le_bytes(d[72..76].try_into().unwrap());
    Some(Tok {
        mint: k(0),
        owner: k(32),
        amount: u(64),
        delegate: if t == 1 { Some(k(76)) } else { None },
        delegated: u(121),
        frozen: d[108] == 2,
    })
}
pub fn encode_tok(t: &Tok) -> Vec<u8> {
    let mut v = vec![0u8; 165];
    v[..32].copy_from_slice(t.mint.as_ref());
    v[32..64].copy_from_slice(t.owner.as_ref());
    patch_tok(&mut v, t);
    v
}
/// overwrites the balance and delegate of an existing token account image
pub fn patch_tok(v: &mut [u8], t: &Tok) {
    v[64..72].copy_from_slice(&t.amount.to_le_bytes());
    match t.delegate {
        Some(d) => {
            v[72..76].copy_from_slice(&1u32.to_le_bytes());
            v[76..108].copy_from_slice(d.as_ref());
        }
        None => {
            v[72..108].fill(0);
        }
    }
    v[121..129].copy_from_slice(&t.delegated.to_le_bytes());
    v[108] = 1 + t.frozen as u8;
}
pub fn encode_mint(authority: Option<Pubkey>, supply: u64, decimals: u8) -> Vec<u8> {
    let mut v = vec![0u8; 82];
    if let Some(a) = authority {
        v[..4].copy_from_slice(&1u32.to_le_bytes());
        v[4..36].copy_from_slice(a.as_ref());
    }
    v[36..44].copy_from_slice(&supply.to_le_bytes());
    v[44] = decimals;
    v[45] = 1;
    v
}
pub fn mint_supply(d: &[u8]) -> u64 {
    u64::from_le_bytes(d[36..44].try_into().unwrap())
}
