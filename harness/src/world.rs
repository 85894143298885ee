//! A deployed manager in the mini runtime, next to its model: builds instructions, runs them, compares.
use crate::engine::{Fail, Obs};
use crate::layout::*;
use crate::model::*;
use crate::programs as P;
use crate::svm::{rent_min, Svm, TxErr, TxOk};
use solana_sdk::{
    account::Account,
    bpf_loader, bpf_loader_upgradeable,
    hash::hashv,
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program,
};
use std::{cell::RefCell, collections::BTreeMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bind {
    /// only this account may be here
    Yes,
    /// the caller may choose
    No,
    /// only this account may be here if the call has an effect
    IfActs,
}
pub struct Slot {
    pub meta: AccountMeta,
    pub bind: Bind,
    pub name: &'static str,
}
fn b(meta: AccountMeta, name: &'static str) -> Slot {
    Slot {
        meta,
        bind: Bind::Yes,
        name,
    }
}
fn f(meta: AccountMeta, name: &'static str) -> Slot {
    Slot {
        meta,
        bind: Bind::No,
        name,
    }
}
fn a(meta: AccountMeta, name: &'static str) -> Slot {
    Slot {
        meta,
        bind: Bind::IfActs,
        name,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum HookAccts {
    #[default]
    Full,
    Missing,
    WrongDummy,
    WrongCounter,
    /// all of them, among others that are not needed
    Padded,
    /// all of them, in another order
    Reversed,
}
impl HookAccts {
    pub fn enough(self) -> bool {
        matches!(self, HookAccts::Full | HookAccts::Padded | HookAccts::Reversed)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Mods {
    pub subst: Vec<(usize, Pubkey)>,
    pub unsign: Vec<usize>,
    pub hook: HookAccts,
}
impl Mods {
    pub fn none(&self) -> bool {
        self.subst.is_empty() && self.unsign.is_empty() && self.hook == HookAccts::Full
    }
}

/// accounts the programs create at addresses known beforehand
const PREFUNDABLE: [&str; 10] = [
    "config", "rate_limit", "custody", "peer", "inbox_rate_limit", "registered_transceiver", "inbox_item", "transceiver_message", "outbox_item", "lut",
];

pub struct World {
    pub prefund: u64,
    pub svm: Svm,
    pub m: Model,
    pub fee_payer: Pubkey,
    pub users: Vec<Pubkey>,
    pub decoy_mint: Pubkey,
    /// non-canonical token accounts (same owner and mint as a canonical one, attacker-chosen address)
    pub fresh_n: u64,
    pub salt: u64,
    /// a pause was attempted at some point of this history
    pub ever_paused: bool,
    /// calls are built by the TypeScript client where it offers them
    pub client: bool,
    pub vaa_hashes: BTreeMap<Pubkey, B32>,
}

pub fn loader_program_data(auth: Option<Pubkey>) -> Vec<u8> {
    let mut v = 3u32.to_le_bytes().to_vec();
    v.extend_from_slice(&0u64.to_le_bytes());
    match auth {
        Some(k) => {
            v.push(1);
            v.extend_from_slice(k.as_ref());
        }
        None => v.extend_from_slice(&[0; 33]),
    }
    v.extend_from_slice(&[0; 16]);
    v
}

/// runtime with every program present and the core bridge configured
pub fn base_svm() -> Svm {
    thread_local! { static B: RefCell<Option<Svm>> = const { RefCell::new(None) }; }
    B.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let mut s = Svm::new();
            for p in [
                P::ntt(),
                P::standalone(),
                P::quoter(),
                P::governance(),
                P::core_bridge_id(),
            ] {
                let pd = program_data(&p);
                let mut d = 2u32.to_le_bytes().to_vec();
                d.extend_from_slice(pd.as_ref());
                s.put_program(p, bpf_loader_upgradeable::id(), d);
                s.put(pd, bpf_loader_upgradeable::id(), loader_program_data(None));
            }
            let mut others = vec![
                P::hook(),
                P::token(),
                P::token22(),
                P::ata_program(),
                P::noop_program(),
            ];
            others.extend((0..P::N_FAKE).map(P::fake_transceiver));
            for p in others {
                s.put_program(p, bpf_loader::id(), vec![0; 8]);
            }
            // core bridge configuration and fee collector as on mainnet
            let bd = vec![
                0, 0, 0, 0, 0x9d, 0xad, 0x12, 0x08, 0, 0, 0, 0, 0x80, 0x51, 0x01, 0, 0x64, 0, 0, 0,
                0, 0, 0, 0,
            ];
            let mut acc = Account {
                lamports: rent_min(24),
                data: bd,
                owner: P::core_bridge_id(),
                executable: false,
                rent_epoch: u64::MAX,
            };
            set_bridge(&mut acc, 100, FEE_COLLECTOR0);
            s.db.insert(bridge(), acc);
            s.db.insert(
                fee_collector(),
                Account {
                    lamports: FEE_COLLECTOR0,
                    data: vec![],
                    owner: system_program::id(),
                    executable: false,
                    rent_epoch: u64::MAX,
                },
            );
            *c = Some(s);
        }
        c.clone().unwrap()
    })
}
pub const FEE_COLLECTOR0: u64 = 2_350_640_070;
pub fn set_bridge(a: &mut Account, fee: u64, last_lamports: u64) {
    a.data[4..12].copy_from_slice(&last_lamports.to_le_bytes());
    a.data[16..24].copy_from_slice(&fee.to_le_bytes());
}

pub fn state_tags(c: &Call, kind: &str, field: &str) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    let is_t = matches!(c, Call::Transfer { .. });
    let is_redeem = matches!(c, Call::Redeem { .. });
    let is_rel = matches!(c, Call::ReleaseIn { .. });
    let admin = matches!(
        c,
        Call::SetPeer { .. }
            | Call::Register { .. }
            | Call::SetOutLimit { .. }
            | Call::SetInLimit { .. }
            | Call::SetPaused { .. }
            | Call::SetXPeer { .. }
            | Call::Nominate { .. }
            | Call::Claim { .. }
    );
    if admin {
        v.push("C15");
        v.push("C14");
    }
    if matches!(c, Call::Nominate { .. } | Call::Claim { .. }) {
        v.push("C16");
    }
    if matches!(c, Call::Register { .. }) {
        v.push("C19");
    }
    if matches!(c, Call::Initialize { .. }) {
        v.push("C20");
    }
    if matches!(c, Call::BroadcastId { .. } | Call::BroadcastPeer { .. }) {
        v.push("C25");
    }
    if matches!(c, Call::InitLut { .. }) {
        v.push("C26");
    }
    if c.standalone() {
        v.push("C24");
    }
    match kind {
        "config" => {
            v.push("C15");
            match field {
                "owner_field" | "pending_owner" => v.push("C16"),
                "paused" => v.push("C14"),
                "enabled" | "next_id" => v.extend(["C19", "C08"]),
                "threshold" => v.push("C08"),
                "fixed" => v.push("C20"),
                _ => v.push("C20"),
            }
        }
        "outbound-limit" => {
            v.push("C10");
            v.push("C11");
            if is_redeem || is_rel || is_t {
                v.push("C13");
            }
            if !is_redeem && !is_t {
                v.push("C15");
            }
        }
        "inbound-limit" => {
            v.push("C10");
            v.push("C12");
            if is_redeem || is_rel || is_t {
                v.push("C13");
            }
            if !is_redeem && !is_t {
                v.push("C15");
            }
        }
        "peer" => v.extend(["C15", "C07"]),
        "transceiver-peer" => v.extend(["C15", "C07"]),
        "registered-transceiver" => v.extend(["C19", "C15"]),
        "outbox-item" => {
            v.push("C03");
            match field {
                "amount" => v.extend(["C02", "C09"]),
                "release" => v.extend(["C11", "C09"]),
                "released" => v.extend(["C09", "C24"]),
                "missing" => v.extend(["C11", "C09"]),
                _ => {}
            }
        }
        "message" => v.extend(["C07", "C01", "C06"]),
        "inbox-item" => {
            v.push("C06");
            match field {
                "amount" => v.extend(["C02", "C04"]),
                "recipient" => v.push("C04"),
                "votes" => v.push("C08"),
                "status" => v.extend(["C08", "C12", "C04"]),
                _ => v.extend(["C04", "C08", "C12"]),
            }
        }
        "token-account" => {
            v.push("C05");
            if is_t {
                v.extend(["C03", "C17", "C02"]);
            }
            if is_rel {
                v.extend(["C04"]);
            }
            if is_redeem {
                v.extend(["C12", "C08", "C14"]);
            }
        }
        "mint" => {
            v.push("C05");
            if is_rel {
                v.push("C04");
            }
            if is_t {
                v.push("C03");
            }
        }
        "posted-message" => {
            v.extend(["C01"]);
            if matches!(c, Call::ReleaseOut { .. }) {
                v.push("C09");
            }
        }
        "sequence" | "fee-collector" => {
            v.push(
                if matches!(c, Call::ReleaseOut { .. } | Call::Mark { .. }) {
                    "C09"
                } else {
                    "C25"
                },
            );
        }
        "hook-counter" => v.push("C27"),
        "lut" | "lookup-table" => v.push("C26"),
        "program-data" => v.push("C16"),
        _ => v.extend(c.promises()),
    }
    v.sort();
    v.dedup();
    v
}

impl World {
    pub fn fresh(&mut self) -> Pubkey {
        self.fresh_n += 1;
        Pubkey::new_from_array(
            hashv(&[
                b"fresh",
                &self.salt.to_le_bytes(),
                &self.fresh_n.to_le_bytes(),
            ])
            .to_bytes(),
        )
    }

    pub fn new(
        salt: u64,
        kind: TokKind,
        decimals: u8,
        mint_authority: Option<Pubkey>,
        upgrade_auth: Option<Pubkey>,
        t0: i64,
        supply_extra: u64,
    ) -> World {
        let mut svm = base_svm();
        svm.set_time(t0);
        let mut w = World {
            prefund: 0,
            svm,
            m: Model {
                st: BTreeMap::new(),
                now: t0,
                kind,
                mint: Pubkey::default(),
                token_program: if kind == TokKind::Spl {
                    P::token()
                } else {
                    P::token22()
                },
                mint_authority,
                wh_fee: 100,
                vaas: BTreeMap::new(),
                slots: (927, 990),
            },
            fee_payer: Pubkey::default(),
            users: vec![],
            decoy_mint: Pubkey::default(),
            fresh_n: 0,
            salt,
            ever_paused: false,
            client: false,
            vaa_hashes: BTreeMap::new(),
        };
        w.fee_payer = w.fresh();
        let fp = w.fee_payer;
        w.svm.airdrop(fp, 1 << 50);
        let mint = w.fresh();
        w.m.mint = mint;
        w.make_mint(mint, kind, mint_authority, decimals, supply_extra);
        w.m.st.insert(
            mint,
            St::Mint {
                supply: supply_extra,
                decimals,
            },
        );
        let decoy = w.fresh();
        w.decoy_mint = decoy;
        w.svm.put(
            decoy,
            w.m.token_program,
            encode_mint(mint_authority, 1 << 60, decimals),
        );
        let pd = program_data(&P::ntt());
        w.svm.put(
            pd,
            bpf_loader_upgradeable::id(),
            loader_program_data(upgrade_auth),
        );
        w.m.st.insert(pd, St::ProgData(upgrade_auth));
        w.m.st
            .insert(fee_collector(), St::FeeCollector(FEE_COLLECTOR0));
        w
    }

    fn make_mint(
        &mut self,
        mint: Pubkey,
        kind: TokKind,
        authority: Option<Pubkey>,
        decimals: u8,
        supply: u64,
    ) {
        use spl_token_2022::extension::ExtensionType as E;
        match kind {
            TokKind::Spl | TokKind::T22 => self.svm.put(
                mint,
                self.m.token_program,
                encode_mint(authority, supply, decimals),
            ),
            TokKind::Hook | TokKind::Fee { .. } => {
                let e = if kind == TokKind::Hook {
                    E::TransferHook
                } else {
                    E::TransferFeeConfig
                };
                let len =
                    E::try_calculate_account_len::<spl_token_2022::state::Mint>(&[e]).unwrap();
                self.svm.put(mint, P::token22(), vec![0; len]);
                let a = authority.unwrap_or(Pubkey::new_from_array([3; 32]));
                let i1 = match kind {
                    TokKind::Hook => {
                        spl_token_2022::extension::transfer_hook::instruction::initialize(&P::token22(), &mint, Some(a), Some(P::hook())).unwrap()
                    }
                    TokKind::Fee { bps, max } => spl_token_2022::extension::transfer_fee::instruction::initialize_transfer_fee_config(
                        &P::token22(),
                        &mint,
                        Some(&a),
                        Some(&a),
                        bps,
                        max,
                    )
                    .unwrap(),
                    _ => unreachable!(),
                };
                let i2 = spl_token_2022::instruction::initialize_mint2(
                    &P::token22(),
                    &mint,
                    &a,
                    None,
                    decimals,
                )
                .unwrap();
                self.svm
                    .tx(&self.fee_payer.clone(), &[i1, i2])
                    .unwrap_or_else(|e| panic!("mint setup {e:?}"));
                let acc = self.svm.db.get_mut(&mint).unwrap();
                acc.data[36..44].copy_from_slice(&supply.to_le_bytes());
                if authority.is_none() {
                    acc.data[..36].fill(0);
                }
                if kind == TokKind::Hook {
                    let h = P::hook();
                    let counter = pda(&[b"counter"], &h);
                    let i = ix(
                        h,
                        vec![
                            ws(self.fee_payer),
                            w(pda(&[b"extra-account-metas", mint.as_ref()], &h)),
                            r(mint),
                            r(P::token22()),
                            r(P::ata_program()),
                            w(counter),
                            r(system_program::id()),
                        ],
                        "initialize_extra_account_meta_list",
                        &[],
                    );
                    self.svm
                        .tx(&self.fee_payer.clone(), &[i])
                        .unwrap_or_else(|e| panic!("hook setup {e:?}"));
                    self.m.st.insert(counter, St::Counter(0));
                }
            }
        }
    }

    /// creates the associated token account of `owner` with a balance
    pub fn make_ata(&mut self, owner: Pubkey, amount: u64) -> Pubkey {
        let mint = self.m.mint;
        let k = ata(&owner, &mint, &self.m.token_program);
        if self.m.st.contains_key(&k) {
            return k;
        }
        let t = Tok {
            mint,
            owner,
            amount,
            delegate: None,
            delegated: 0,
            frozen: false,
        };
        match self.m.kind {
            TokKind::Spl | TokKind::T22 => self.svm.put(k, self.m.token_program, encode_tok(&t)),
            _ => {
                let i = spl_associated_token_account::instruction::create_associated_token_account(
                    &self.fee_payer,
                    &owner,
                    &mint,
                    &self.m.token_program,
                );
                self.svm
                    .tx(&self.fee_payer.clone(), &[i])
                    .unwrap_or_else(|e| panic!("ata setup {e:?}"));
                patch_tok(&mut self.svm.db.get_mut(&k).unwrap().data, &t);
            }
        }
        self.m.st.insert(k, St::Tok(t));
        k
    }
    /// a token account of the managed mint at an attacker-chosen (non-associated) address
    pub fn make_aux_tok(&mut self, owner: Pubkey, amount: u64) -> Pubkey {
        let k = self.fresh();
        let template = self.make_ata(owner, 0);
        let mut acc = self.svm.get(&template).unwrap().clone();
        let t = Tok {
            mint: self.m.mint,
            owner,
            amount,
            delegate: None,
            delegated: 0,
            frozen: false,
        };
        patch_tok(&mut acc.data, &t);
        self.svm.db.insert(k, acc);
        self.m.st.insert(k, St::Tok(t));
        k
    }

    pub fn poke_tok(&mut self, k: &Pubkey) {
        let t = self.m.tok(k).unwrap().clone();
        patch_tok(&mut self.svm.db.get_mut(k).unwrap().data, &t);
    }
    pub fn poke_cfg(&mut self) {
        let c = cfg_bytes(self.m.cfg().unwrap());
        self.svm.db.get_mut(&config()).unwrap().data[..c.len()].copy_from_slice(&c);
    }
    /// the upgrade authority as moved with the loader directly
    pub fn poke_authority(&mut self, a: Option<Pubkey>) {
        let pd = program_data(&P::ntt());
        self.m.st.insert(pd, St::ProgData(a));
        let d = &mut self.svm.db.get_mut(&pd).unwrap().data;
        d[12] = a.is_some() as u8;
        d[13..45].copy_from_slice(&a.unwrap_or_default().to_bytes());
    }
    /// the core bridge's message fee
    pub fn set_fee(&mut self, fee: u64) {
        self.m.wh_fee = fee;
        set_bridge(self.svm.db.get_mut(&bridge()).unwrap(), fee, FEE_COLLECTOR0);
    }
    pub fn approve(&mut self, k: &Pubkey, delegate: Pubkey, amount: u64) {
        let t = self.m.tok_mut(k);
        t.delegate = Some(delegate);
        t.delegated = amount;
        self.poke_tok(k);
    }
    pub fn set_time(&mut self, t: i64) {
        self.m.now = t;
        self.svm.set_time(t);
    }
    pub fn put_vaa(&mut self, v: Vaa, payload: &[u8], seq: u64) -> Pubkey {
        let k = if self.client {
            // where the bridge itself puts them
            self.fresh_n += 1;
            let h = crate::client::vaa_hash(self.salt, self.fresh_n);
            let k = crate::client::posted_vaa_key(&h);
            self.vaa_hashes.insert(k, h);
            k
        } else {
            self.fresh()
        };
        self.svm.put(
            k,
            P::core_bridge_id(),
            posted_vaa(self.m.now as u32, seq, v.chain, &v.emitter, payload),
        );
        self.m.vaas.insert(k, v);
        k
    }
    /// a validated message as a third-party transceiver presents it
    pub fn put_msg(&mut self, owner: Pubkey, chain: u16, x: &Xfer) -> Pubkey {
        let k = self.fresh();
        let mut d = x.validated(chain);
        d.extend_from_slice(&[0; 8]);
        self.svm.put(k, owner, d);
        self.m.st.insert(k, St::Msg(owner, chain, x.clone()));
        k
    }

    // ---------------------------------------------------------------------------------------------

    pub fn slots(&self, c: &Call, hook: HookAccts) -> (Pubkey, Vec<Slot>, &'static str, Vec<u8>) {
        let ntt = P::ntt();
        let (mint, tp, custody) = match self.m.cfg() {
            Some(c) => (c.mint, c.token_program, c.custody),
            None => (
                self.m.mint,
                self.m.token_program,
                ata(&token_authority(), &self.m.mint, &self.m.token_program),
            ),
        };
        let sys = || b(r(system_program::id()), "system_program");
        let wh = |e: &Pubkey| -> Vec<Slot> {
            let m = wormhole_metas(e);
            let names = [
                "bridge",
                "fee_collector",
                "sequence",
                "wormhole_program",
                "system_program",
                "clock",
                "rent",
            ];
            m.into_iter()
                .zip(names)
                .map(|(m, n)| {
                    if n == "fee_collector" || n == "sequence" {
                        a(m, n)
                    } else {
                        b(m, n)
                    }
                })
                .collect()
        };
        let hooks = |src_owner: Pubkey| -> Vec<Slot> {
            if self.m.kind != TokKind::Hook || hook == HookAccts::Missing {
                return vec![];
            }
            let h = P::hook();
            let dummy_owner = if hook == HookAccts::WrongDummy {
                Pubkey::new_from_array([9; 32])
            } else {
                src_owner
            };
            let counter = if hook == HookAccts::WrongCounter {
                b"countez"
            } else {
                b"counter"
            };
            let mut v = vec![
                f(
                    r(pda(&[b"extra-account-metas", mint.as_ref()], &h)),
                    "hook_metas",
                ),
                f(
                    r(pda(&[b"dummy_account", dummy_owner.as_ref()], &h)),
                    "hook_dummy",
                ),
                f(w(pda(&[counter], &h)), "hook_counter"),
                f(r(h), "hook_program"),
            ];
            match hook {
                HookAccts::Reversed => v.reverse(),
                HookAccts::Padded => {
                    let pad = |i: u8| f(r(Pubkey::new_from_array([0xA0 + i; 32])), "hook_pad");
                    for i in 0..5u8 {
                        v.insert(i as usize * 2 % (v.len() + 1), pad(i));
                    }
                    v.push(f(r(config()), "hook_pad"));
                }
                _ => {}
            }
            v
        };
        match c {
            Call::Initialize {
                payer,
                deployer,
                mint,
                chain,
                limit,
                mode,
            } => {
                let cust = ata(&token_authority(), mint, &tp);
                let mut args = chain.to_le_bytes().to_vec();
                args.extend_from_slice(&limit.to_le_bytes());
                args.push(*mode);
                (
                    ntt,
                    vec![
                        f(ws(*payer), "payer"),
                        b(rs(*deployer), "deployer"),
                        b(r(program_data(&ntt)), "program_data"),
                        b(w(config()), "config"),
                        f(r(*mint), "mint"),
                        b(w(outbox_rl()), "rate_limit"),
                        b(r(token_authority()), "token_authority"),
                        b(w(cust), "custody"),
                        b(r(tp), "token_program"),
                        b(r(P::ata_program()), "associated_token_program"),
                        b(r(bpf_loader_upgradeable::id()), "loader"),
                        sys(),
                    ],
                    "initialize",
                    args,
                )
            }
            Call::InitLut { payer, slot } => {
                let mut s = vec![
                    f(ws(*payer), "payer"),
                    b(r(lut_authority()), "authority"),
                    b(w(lut_table(*slot)), "lut_address"),
                    b(w(lut()), "lut"),
                    b(
                        r(solana_sdk::address_lookup_table::program::id()),
                        "lut_program",
                    ),
                    sys(),
                    b(r(config()), "config"),
                    b(r(custody), "custody"),
                    b(r(tp), "token_program"),
                    b(r(mint), "mint"),
                    b(r(token_authority()), "token_authority"),
                    b(r(outbox_rl()), "outbox_rate_limit"),
                ];
                // the fee collector and sequence entries are not validated by this instruction
                s.extend(wh(&emitter(&ntt)).into_iter().map(|mut s| {
                    if s.bind == Bind::IfActs {
                        s.bind = Bind::No;
                    }
                    s
                }));
                (ntt, s, "initialize_lut", slot.to_le_bytes().to_vec())
            }
            Call::Transfer {
                payer,
                from,
                burn,
                req,
                outbox,
                session,
            } => {
                let fo = self.m.tok(from).map(|t| t.owner).unwrap_or_default();
                let mut s = vec![
                    f(ws(*payer), "payer"),
                    b(r(config()), "config"),
                    b(w(mint), "mint"),
                    f(w(*from), "from"),
                    b(r(tp), "token_program"),
                    f(ws(*outbox), "outbox_item"),
                    b(w(outbox_rl()), "outbox_rate_limit"),
                    b(w(custody), "custody"),
                    sys(),
                    b(w(inbox_rl(req.chain)), "inbox_rate_limit"),
                    b(r(peer(req.chain)), "peer"),
                    b(r(*session), "session_authority"),
                ];
                if *burn {
                    s.push(b(r(token_authority()), "token_authority"));
                }
                s.extend(hooks(fo));
                (
                    ntt,
                    s,
                    if *burn {
                        "transfer_burn"
                    } else {
                        "transfer_lock"
                    },
                    req.borsh(),
                )
            }
            Call::Redeem {
                payer,
                msg,
                transceiver,
            } => {
                let (ch, h) = match self.m.st.get(msg) {
                    Some(St::Msg(_, ch, x)) => (*ch, x.digest(*ch)),
                    _ => (0, [0; 32]),
                };
                (
                    ntt,
                    vec![
                        f(ws(*payer), "payer"),
                        b(r(config()), "config"),
                        b(r(peer(ch)), "peer"),
                        b(r(*msg), "transceiver_message"),
                        b(r(registered(transceiver)), "transceiver"),
                        b(r(mint), "mint"),
                        b(w(inbox_item(&h)), "inbox_item"),
                        b(w(inbox_rl(ch)), "inbox_rate_limit"),
                        b(w(outbox_rl()), "outbox_rate_limit"),
                        sys(),
                    ],
                    "redeem",
                    vec![],
                )
            }
            Call::ReleaseIn {
                payer,
                item,
                mint: m,
                revert,
            } => {
                let rec = self.m.inn(item).map(|i| i.recipient).unwrap_or_default();
                let mut s = vec![
                    f(ws(*payer), "payer"),
                    b(r(config()), "config"),
                    f(w(*item), "inbox_item"),
                    b(w(ata(&rec, &mint, &tp)), "recipient"),
                    b(r(token_authority()), "token_authority"),
                    b(w(mint), "mint"),
                    b(r(tp), "token_program"),
                    b(w(custody), "custody"),
                ];
                s.extend(hooks(token_authority()));
                (
                    ntt,
                    s,
                    if *m {
                        "release_inbound_mint"
                    } else {
                        "release_inbound_unlock"
                    },
                    vec![*revert as u8],
                )
            }
            Call::Nominate {
                signer,
                new_owner,
                one_step,
            } => (
                ntt,
                vec![
                    b(w(config()), "config"),
                    b(rs(*signer), "owner"),
                    f(r(*new_owner), "new_owner"),
                    b(r(upgrade_lock()), "upgrade_lock"),
                    b(w(program_data(&ntt)), "program_data"),
                    b(r(bpf_loader_upgradeable::id()), "loader"),
                ],
                if *one_step {
                    "transfer_ownership_one_step_unchecked"
                } else {
                    "transfer_ownership"
                },
                vec![],
            ),
            Call::Claim { who } => (
                ntt,
                vec![
                    b(w(config()), "config"),
                    b(r(upgrade_lock()), "upgrade_lock"),
                    f(rs(*who), "new_owner"),
                    b(w(program_data(&ntt)), "program_data"),
                    b(r(bpf_loader_upgradeable::id()), "loader"),
                ],
                "claim_ownership",
                vec![],
            ),
            Call::SetPeer {
                payer,
                signer,
                chain,
                addr,
                limit,
                decimals,
            } => {
                let mut args = chain.to_le_bytes().to_vec();
                args.extend_from_slice(addr);
                args.extend_from_slice(&limit.to_le_bytes());
                args.push(*decimals);
                (
                    ntt,
                    vec![
                        f(ws(*payer), "payer"),
                        b(rs(*signer), "owner"),
                        b(r(config()), "config"),
                        b(w(peer(*chain)), "peer"),
                        b(w(inbox_rl(*chain)), "inbox_rate_limit"),
                        sys(),
                    ],
                    "set_peer",
                    args,
                )
            }
            Call::Register {
                payer,
                signer,
                transceiver,
            } => (
                ntt,
                vec![
                    b(w(config()), "config"),
                    b(rs(*signer), "owner"),
                    f(ws(*payer), "payer"),
                    f(r(*transceiver), "transceiver"),
                    b(w(registered(transceiver)), "registered_transceiver"),
                    sys(),
                ],
                "register_transceiver",
                vec![],
            ),
            Call::SetOutLimit { signer, limit } => (
                ntt,
                vec![
                    b(r(config()), "config"),
                    b(rs(*signer), "owner"),
                    b(w(outbox_rl()), "rate_limit"),
                ],
                "set_outbound_limit",
                limit.to_le_bytes().to_vec(),
            ),
            Call::SetInLimit {
                signer,
                chain,
                limit,
            } => {
                let mut args = limit.to_le_bytes().to_vec();
                args.extend_from_slice(&chain.to_le_bytes());
                (
                    ntt,
                    vec![
                        b(r(config()), "config"),
                        b(rs(*signer), "owner"),
                        b(w(inbox_rl(*chain)), "rate_limit"),
                    ],
                    "set_inbound_limit",
                    args,
                )
            }
            Call::SetPaused { signer, paused } => (
                ntt,
                vec![b(rs(*signer), "owner"), b(w(config()), "config")],
                "set_paused",
                vec![*paused as u8],
            ),
            Call::Mark {
                by,
                outbox,
                transceiver,
                ..
            } => {
                let s = match by {
                    MarkBy::Fake(i) | MarkBy::FakeUnsigned(i) => {
                        outbox_signer(&P::fake_transceiver(*i))
                    }
                    MarkBy::Direct(k) => *k,
                };
                (
                    ntt,
                    vec![
                        b(
                            if matches!(by, MarkBy::Direct(_)) {
                                rs(s)
                            } else {
                                r(s)
                            },
                            "signer",
                        ),
                        b(r(config()), "config"),
                        f(w(*outbox), "outbox_item"),
                        b(r(registered(transceiver)), "transceiver"),
                    ],
                    "mark_outbox_item_as_released",
                    vec![],
                )
            }
            Call::SetXPeer {
                prog,
                payer,
                signer,
                chain,
                addr,
            } => {
                let mut args = chain.to_le_bytes().to_vec();
                args.extend_from_slice(addr);
                (
                    *prog,
                    vec![
                        b(r(config()), "config"),
                        b(rs(*signer), "owner"),
                        f(ws(*payer), "payer"),
                        b(w(xpeer(prog, *chain)), "peer"),
                        sys(),
                    ],
                    "set_wormhole_peer",
                    args,
                )
            }
            Call::Receive { prog, payer, vaa } => {
                let (ch, id) = match self.m.vaas.get(vaa) {
                    Some(v) => (v.chain, v.body.as_ref().map(|x| x.id).unwrap_or_default()),
                    None => (0, [0; 32]),
                };
                (
                    *prog,
                    vec![
                        f(ws(*payer), "payer"),
                        b(r(config()), "config"),
                        b(r(xpeer(prog, ch)), "peer"),
                        b(r(*vaa), "vaa"),
                        b(w(xmsg(prog, ch, &id)), "transceiver_message"),
                        sys(),
                    ],
                    "receive_wormhole_message",
                    vec![],
                )
            }
            Call::ReleaseOut {
                prog,
                payer,
                outbox,
                revert,
            } => {
                let mut s = vec![
                    f(ws(*payer), "payer"),
                    b(r(config()), "config"),
                    b(w(*outbox), "outbox_item"),
                    b(r(registered(prog)), "transceiver"),
                    b(w(wh_message(prog, outbox)), "wormhole_message"),
                    b(r(emitter(prog)), "emitter"),
                ];
                s.extend(wh(&emitter(prog)));
                if *prog != ntt {
                    s.push(b(r(ntt), "manager"));
                    s.push(b(r(outbox_signer(prog)), "outbox_item_signer"));
                }
                (*prog, s, "release_wormhole_outbound", vec![*revert as u8])
            }
            Call::BroadcastId { prog, payer, msg } => {
                let mut s = vec![
                    f(ws(*payer), "payer"),
                    b(r(config()), "config"),
                    b(r(mint), "mint"),
                    f(ws(*msg), "wormhole_message"),
                    b(r(emitter(prog)), "emitter"),
                ];
                s.extend(wh(&emitter(prog)));
                (*prog, s, "broadcast_wormhole_id", vec![])
            }
            Call::BroadcastPeer {
                prog,
                payer,
                chain,
                msg,
            } => {
                let mut s = vec![
                    f(ws(*payer), "payer"),
                    b(r(config()), "config"),
                    b(r(xpeer(prog, *chain)), "peer"),
                    f(ws(*msg), "wormhole_message"),
                    b(r(emitter(prog)), "emitter"),
                ];
                s.extend(wh(&emitter(prog)));
                (
                    *prog,
                    s,
                    "broadcast_wormhole_peer",
                    chain.to_le_bytes().to_vec(),
                )
            }
        }
    }

    pub fn build(&self, c: &Call, mods: &Mods) -> Instruction {
        let (program_id, mut s, name, args) = self.slots(c, mods.hook);
        for (i, k) in &mods.subst {
            s[*i].meta.pubkey = *k;
        }
        for i in &mods.unsign {
            s[*i].meta.is_signer = false;
        }
        let i = Instruction {
            program_id,
            accounts: s.into_iter().map(|s| s.meta).collect(),
            data: ix_data(name, &args),
        };
        if let Call::Mark { by, .. } = c {
            let (n, sign) = match by {
                MarkBy::Fake(n) => (*n, 1),
                MarkBy::FakeUnsigned(n) => (*n, 0),
                MarkBy::Direct(_) => return i,
            };
            let mut accounts = vec![r(P::ntt())];
            accounts.extend(i.accounts);
            let mut data = vec![sign, 0];
            data.extend(i.data);
            return Instruction {
                program_id: P::fake_transceiver(n),
                accounts,
                data,
            };
        }
        i
    }

    /// Runs the calls as one transaction and compares outcome and state with the model.
    /// Returns what each call did if the transaction succeeded.
    pub fn exec(
        &mut self,
        calls: &[(Call, Mods)],
        obs: &mut Obs,
    ) -> Result<Option<Vec<Did>>, Fail> {
        let built = match calls {
            [(c, mods)] if self.client && mods.none() => self.client_build(c, obs)?,
            _ => None,
        };
        self.exec_with(calls, vec![], built, obs)
    }
    /// The same with the transaction as a client built it, if it did; `prefix` goes before the calls otherwise.
    pub fn exec_with(
        &mut self,
        calls: &[(Call, Mods)],
        prefix: Vec<Instruction>,
        built: crate::client::Built,
        obs: &mut Obs,
    ) -> Result<Option<Vec<Did>>, Fail> {
        self.ever_paused |= calls.iter().any(|c| matches!(c.0, Call::SetPaused { .. }));
        if self.prefund > 0 {
            // anyone can send lamports to an address before the account there is created
            for (c, mods) in calls {
                for s in self.slots(c, mods.hook).1 {
                    let k = s.meta.pubkey;
                    if s.meta.is_writable && PREFUNDABLE.contains(&s.name) && self.svm.get(&k).is_none() {
                        self.svm.put(k, anchor_lang::system_program::ID, vec![]);
                        self.svm.db.get_mut(&k).unwrap().lamports = self.prefund;
                        obs.class("address funded before its account was created");
                    }
                }
            }
        }
        let mut m2 = self.m.clone();
        let mut ixs = vec![];
        let mut dids = vec![];
        let mut rej: Vec<(&'static str, Vec<&'static str>)> = vec![];
        let mut hook_moves: Vec<u64> = vec![];
        let mut rej_call = 0;
        // build every instruction against the state its predecessors leave
        let saved = self.m.clone();
        for (n, (c, mods)) in calls.iter().enumerate() {
            ixs.push(self.build(c, mods));
            if !rej.is_empty() {
                continue;
            }
            match m2.apply(c) {
                Ok(d) => {
                    let acts = !d.noop;
                    let (_, slots, _, _) = self.slots(c, mods.hook);
                    for (i, k) in &mods.subst {
                        let s = &slots[*i];
                        if s.meta.pubkey != *k
                            && (s.bind == Bind::Yes || s.bind == Bind::IfActs && acts)
                        {
                            rej.push(("substituted account", subst_tags(c, s.name)));
                        }
                    }
                    for i in &mods.unsign {
                        let s = &slots[*i];
                        if s.meta.is_signer {
                            let mut t = vec!["C18"];
                            if s.name == "owner" {
                                t.push("C15");
                            }
                            if s.name == "new_owner" {
                                t.push("C16");
                            }
                            if s.name == "deployer" {
                                t.push("C20");
                            }
                            if s.name == "signer" {
                                t.push("C24");
                            }
                            rej.push(("missing signature", t));
                        }
                    }
                    if self.m.kind == TokKind::Hook
                        && !mods.hook.enough()
                        && d.hooked.is_some()
                    {
                        rej.push(("hook accounts missing", vec!["C27"]));
                    }
                    if self.m.kind == TokKind::Hook
                        && !mods.hook.enough()
                        && d.hooked.is_none()
                        && d.moved.is_some()
                    {
                        // custody to itself: no hook runs, and whether its accounts are looked up is open
                        obs.class("skip:hook accounts of a self-transfer");
                        self.m = saved;
                        return Ok(None);
                    }
                    if let Some(a) = d.hooked {
                        hook_moves.push(a);
                    }
                    dids.push(d);
                    self.m = m2.clone();
                }
                Err(e) => {
                    rej.extend(e.into_iter().map(|(w, t)| (w, t.to_vec())));
                    let (_, slots, _, _) = self.slots(c, mods.hook);
                    for (i, k) in &mods.subst {
                        if slots[*i].meta.pubkey != *k {
                            rej.push(("substituted account", subst_tags(c, slots[*i].name)));
                        }
                    }
                }
            }
            if !rej.is_empty() {
                rej_call = n;
            }
        }
        self.m = saved;
        // a signature dropped in one place but given in another is not missing
        if rej.iter().any(|x| x.0 == "missing signature") {
            let all: Vec<Pubkey> = ixs
                .iter()
                .flat_map(|i| i.accounts.iter())
                .filter(|a| a.is_signer)
                .map(|a| a.pubkey)
                .chain([self.fee_payer])
                .collect();
            let (c, mods) = &calls[rej_call];
            let (_, slots, _, _) = self.slots(c, mods.hook);
            if mods
                .unsign
                .iter()
                .any(|i| all.contains(&slots[*i].meta.pubkey))
            {
                obs.class("skip:signed-elsewhere");
                return Ok(None);
            }
        }
        obs.txs += 1;
        let names = calls
            .iter()
            .map(|c| c.0.name())
            .collect::<Vec<_>>()
            .join("+");
        let native: Vec<Instruction> = prefix.into_iter().chain(ixs).collect();
        let Some(built) = built else {
            let res = self.svm.tx(&self.fee_payer.clone(), &native);
            return self.judge(calls, &names, res, &rej, rej_call, &dids, m2, &hook_moves, obs);
        };
        let snapshot = self.svm.clone();
        let signers: Vec<Pubkey> = native.iter().flat_map(|i| i.accounts.iter()).filter(|a| a.is_signer).map(|a| a.pubkey).collect();
        let res = match &built {
            Err(e) => Err(TxErr(format!("client: {e}"))),
            Ok(v) => match v.iter().flat_map(|i| i.accounts.iter()).find(|a| a.is_signer && !signers.contains(&a.pubkey)) {
                Some(a) => Err(TxErr(format!("client: the signature of {} cannot be had", a.pubkey))),
                None => self.svm.tx(&self.fee_payer.clone(), v),
            },
        };
        match self.judge(calls, &names, res, &rej, rej_call, &dids, m2.clone(), &hook_moves, obs) {
            Ok(x) => Ok(x),
            Err(mut fail) => {
                // not the client's doing if the calls as such do not behave
                self.svm = snapshot;
                let res = self.svm.tx(&self.fee_payer.clone(), &native);
                self.judge(calls, &names, res, &rej, rej_call, &dids, m2, &hook_moves, obs)?;
                fail.tags = vec!["C29"];
                fail.site = format!("client:{}", fail.site);
                fail.msg = format!("with the client's transaction: {}", fail.msg);
                Err(fail)
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge(
        &mut self,
        calls: &[(Call, Mods)],
        names: &str,
        res: Result<TxOk, TxErr>,
        rej: &[(&'static str, Vec<&'static str>)],
        rej_call: usize,
        dids: &[Did],
        m2: Model,
        hook_moves: &[u64],
        obs: &mut Obs,
    ) -> Result<Option<Vec<Did>>, Fail> {
        match (res, rej.is_empty()) {
            (Err(e), false) => {
                let _ = e;
                obs.class("rejected");
                for x in rej {
                    obs.class(x.0);
                }
                obs.log(|| {
                    format!(
                        "{names}: rejected as it must be ({})",
                        rej.iter().map(|r| r.0).collect::<Vec<_>>().join(", ")
                    )
                });
                Ok(None)
            }
            (Ok(ok), false) => {
                let mut tags: Vec<&'static str> = rej.iter().flat_map(|r| r.1.clone()).collect();
                // and whatever the unwanted call changed concerns the properties about that state
                if calls.len() == 1 {
                    if let Err(f) = self.compare(calls, &self.m, &ok, &[]) {
                        tags.extend(f.tags);
                    }
                }
                if calls[rej_call].0.standalone() {
                    tags.push("C24");
                }
                tags.sort();
                tags.dedup();
                let why = rej.iter().map(|r| r.0).collect::<Vec<_>>().join(", ");
                Err(Fail {
                    site: format!("accepted:{}:{}", calls[rej_call].0.name(), why),
                    tags,
                    msg: format!(
                        "{} succeeded although it must be rejected: {}; call {:?}",
                        names, why, calls[rej_call]
                    ),
                })
            }
            (Err(e), true) => {
                let idx = parse_ix(&e.0).unwrap_or(0).min(calls.len() - 1);
                let c = &calls[idx].0;
                Err(Fail {
                    site: format!("refused:{}", c.name()),
                    tags: {
                        let mut t = c.promises();
                        self.precise(&mut t);
                        t
                    },
                    msg: format!(
                        "{} failed ({}) although it must succeed; call {:?}",
                        c.name(),
                        e.0,
                        calls[idx]
                    ),
                })
            }
            (Ok(ok), true) => {
                obs.class("accepted");
                obs.log(|| {
                    format!(
                        "{names}: ok {:?}",
                        dids.iter().map(brief).collect::<Vec<_>>().join(",")
                    )
                });
                self.compare(calls, &m2, &ok, hook_moves)?;
                if calls.len() == 1 {
                    if let Some(fl) = dids[0].flag {
                        let got = ok.return_data.as_ref().map(|(_, d)| d.clone());
                        if got != Some(vec![fl as u8]) {
                            return Err(Fail {
                                site: "flag:mark_outbox_item".into(),
                                tags: vec!["C24", "C09"],
                                msg: format!("marking reported {:?}, must report {}", got, fl),
                            });
                        }
                    }
                }
                self.m = m2;
                Ok(Some(dids.to_vec()))
            }
        }
    }

    /// pausing has to do with a mismatch only if there was a pause
    fn precise(&self, tags: &mut Vec<&'static str>) {
        if !self.ever_paused {
            tags.retain(|t| *t != "C14");
        }
        if self.m.kind != TokKind::Hook {
            tags.retain(|t| *t != "C27");
        }
    }

    fn compare(
        &self,
        calls: &[(Call, Mods)],
        m2: &Model,
        ok: &TxOk,
        hook_moves: &[u64],
    ) -> Result<(), Fail> {
        let c = &calls[calls.len() - 1].0;
        let mut keys: Vec<Pubkey> = ok.changed.clone();
        for (k, v) in &m2.st {
            if self.m.st.get(k) != Some(v) {
                keys.push(*k);
            }
        }
        keys.sort();
        keys.dedup();
        let mut mis: Option<Fail> = None;
        let mut add = |f: Fail| match mis.as_mut() {
            None => mis = Some(f),
            Some(m) => {
                m.tags.extend(f.tags);
                if m.msg.len() < 2000 {
                    m.msg = format!("{}; {}", m.msg, f.msg);
                }
            }
        };
        for k in keys {
            match m2.st.get(&k) {
                Some(s) => {
                    for (field, msg) in s.check(&k, self.svm.get(&k)) {
                        add(Fail {
                            site: format!("state:{}:{}:{}", c.name(), s.kind(), field),
                            tags: calls.iter().flat_map(|c| state_tags(&c.0, s.kind(), field)).collect(),
                            msg: format!("{} {}: {}", s.kind(), k, msg),
                        });
                    }
                }
                None => {
                    let a = self.svm.get(&k);
                    let wallet = a
                        .map(|a| a.owner == system_program::id() && a.data.is_empty())
                        .unwrap_or(true);
                    if !(wallet || k == bridge()) {
                        let mut tags: Vec<&'static str> =
                            calls.iter().flat_map(|c| c.0.promises()).collect();
                        tags.push("C18");
                        tags.push("C05");
                        add(Fail {
                            site: format!("state:{}:unexpected-account", c.name()),
                            tags,
                            msg: format!("{} changed unrelated account {}", c.name(), k),
                        });
                    }
                }
            }
        }
        if self.m.kind == TokKind::Hook {
            let calls_seen: Vec<&Instruction> = ok
                .cpis
                .iter()
                .filter(|i| i.program_id == P::hook())
                .collect();
            let amounts: Vec<u64> = calls_seen
                .iter()
                .map(|i| u64::from_le_bytes(i.data[i.data.len() - 8..].try_into().unwrap()))
                .collect();
            let mut want = vec![];
            for (cl, _) in calls {
                match cl {
                    Call::Transfer { from, session, .. } => {
                        want.push((*from, self.m.cfg().unwrap().custody, *session))
                    }
                    Call::ReleaseIn { item, .. } => {
                        // only when it moved tokens
                        let moved =
                            matches!(m2.inn(item).map(|i| i.status), Some(Status::Released));
                        let rec = m2.inn(item).map(|i| i.recipient).unwrap_or_default();
                        if moved && rec != token_authority() {
                            want.push((
                                self.m.cfg().unwrap().custody,
                                ata(&rec, &self.m.mint, &self.m.token_program),
                                token_authority(),
                            ));
                        }
                    }
                    _ => {}
                }
            }
            let got: Vec<(Pubkey, Pubkey, Pubkey)> = calls_seen
                .iter()
                .map(|i| {
                    (
                        i.accounts[0].pubkey,
                        i.accounts[2].pubkey,
                        i.accounts[3].pubkey,
                    )
                })
                .collect();
            if amounts != hook_moves || got != want {
                add(Fail {
                    site: format!("hook:{}", c.name()),
                    tags: vec!["C27"],
                    msg: format!(
                        "transfer hook ran for {:?} {:?}, must run for {:?} {:?}",
                        amounts, got, hook_moves, want
                    ),
                });
            }
        }
        match mis {
            None => Ok(()),
            Some(mut m) => {
                m.tags.sort();
                m.tags.dedup();
                m.msg = format!(
                    "after {}: {}",
                    calls.iter().map(|c| format!("{:?}", c.0)).collect::<Vec<_>>().join(" + "),
                    m.msg
                );
                self.precise(&mut m.tags);
                Err(m)
            }
        }
    }
}

fn subst_tags(c: &Call, slot: &str) -> Vec<&'static str> {
    let mut t = vec!["C18"];
    match (c, slot) {
        (Call::Transfer { .. }, "session_authority") => t.push("C17"),
        (Call::Transfer { .. }, "custody" | "mint" | "token_program") => t.extend(["C03", "C05"]),
        (Call::Transfer { .. }, "peer") => t.push("C03"),
        (Call::Transfer { .. }, "inbox_rate_limit") => t.push("C13"),
        (Call::Transfer { .. }, "outbox_rate_limit") => t.push("C11"),
        (Call::Redeem { .. }, "peer") => t.push("C07"),
        (Call::Redeem { .. }, "transceiver_message") => t.extend(["C07", "C08"]),
        (Call::Redeem { .. }, "transceiver") => t.push("C08"),
        (Call::Redeem { .. }, "inbox_item") => t.extend(["C06", "C08", "C04"]),
        (Call::Redeem { .. }, "inbox_rate_limit") => t.push("C12"),
        (Call::Redeem { .. }, "outbox_rate_limit") => t.push("C13"),
        (Call::Redeem { .. }, "mint") => t.extend(["C04", "C02"]),
        (Call::ReleaseIn { .. }, "recipient") => t.push("C04"),
        (Call::ReleaseIn { .. }, "custody" | "mint" | "token_program") => t.extend(["C04", "C05"]),
        (Call::Receive { .. }, "peer" | "vaa") => t.push("C07"),
        (Call::Receive { .. }, "transceiver_message") => t.push("C06"),
        (Call::ReleaseOut { .. }, _) => t.push("C09"),
        (Call::BroadcastId { .. } | Call::BroadcastPeer { .. }, _) => t.push("C25"),
        (Call::InitLut { .. }, _) => t.push("C26"),
        (Call::Initialize { .. }, _) => t.push("C20"),
        (Call::Mark { .. }, _) => t.push("C24"),
        (Call::Nominate { .. } | Call::Claim { .. }, _) => t.push("C16"),
        (Call::Register { .. }, _) => t.push("C19"),
        _ => {}
    }
    if slot == "config" || slot == "owner" {
        t.push("C15");
    }
    if c.standalone() {
        t.push("C24");
    }
    t
}

fn brief(d: &Did) -> String {
    let mut s = String::new();
    if d.noop {
        s.push_str("noop ");
    }
    if d.delayed {
        s.push_str("delayed ");
    }
    if d.approved {
        s.push_str("approved ");
    }
    if d.vote_only {
        s.push_str("vote ");
    }
    if d.posted {
        s.push_str("posted ");
    }
    if let Some(a) = d.moved {
        s.push_str(&format!("moved {a}"));
    }
    s.trim().to_string()
}

fn parse_ix(e: &str) -> Option<usize> {
    let i = e.find("InstructionError(")? + "InstructionError(".len();
    e[i..].split(',').next()?.trim().parse().ok()
}
