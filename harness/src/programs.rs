//! Program ids and native entry points.
use crate::svm::NativeFn;
use solana_sdk::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey};
use std::{collections::HashMap, sync::OnceLock};

pub fn core_bridge_id() -> Pubkey {
    solana_sdk::pubkey!("worm2ZoG2kUd4vFXhvjh93UUH596ayRfgQ2MgjNMTth")
}

pub fn core_bridge_elf() -> &'static [u8] {
    static E: OnceLock<Vec<u8>> = OnceLock::new();
    E.get_or_init(|| {
        std::fs::read("/repo/solana/programs/example-native-token-transfers/tests/fixtures/mainnet_core_bridge.so")
            .expect("core bridge fixture")
    })
}

pub fn ntt() -> Pubkey {
    example_native_token_transfers::ID
}
pub fn standalone() -> Pubkey {
    ntt_transceiver::ID
}
pub fn quoter() -> Pubkey {
    ntt_quoter::ID
}
pub fn governance() -> Pubkey {
    wormhole_governance::ID
}
pub fn hook() -> Pubkey {
    dummy_transfer_hook::ID
}
pub fn ata_program() -> Pubkey {
    spl_associated_token_account::ID
}
pub fn token() -> Pubkey {
    spl_token::ID
}
pub fn token22() -> Pubkey {
    spl_token_2022::ID
}

/// harness-owned programs standing for third-party transceivers
pub fn fake_transceiver(i: u8) -> Pubkey {
    let mut k = [0xF0u8; 32];
    k[1] = i;
    Pubkey::new_from_array(k)
}
pub const N_FAKE: u8 = 4;

/// an attacker's program that accepts anything and does nothing
pub fn noop_program() -> Pubkey {
    Pubkey::new_from_array([0xEE; 32])
}

macro_rules! anchor_entry {
    ($name:ident, $krate:ident) => {
        fn $name(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
            // the entry point wants one lifetime for the slice and its contents
            let a: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(a) };
            $krate::entry(p, a, d)
        }
    };
}
anchor_entry!(e_ntt, example_native_token_transfers);
anchor_entry!(e_standalone, ntt_transceiver);
anchor_entry!(e_quoter, ntt_quoter);
anchor_entry!(e_governance, wormhole_governance);
anchor_entry!(e_hook, dummy_transfer_hook);

fn e_token(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    spl_token::processor::Processor::process(p, a, d)
}
fn e_token22(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    spl_token_2022::processor::Processor::process(p, a, d)
}
fn e_ata(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    spl_associated_token_account::processor::process_instruction(p, a, d)
}
fn e_noop(_p: &Pubkey, _a: &[AccountInfo], _d: &[u8]) -> ProgramResult {
    Ok(())
}
/// Forwards the call in its data to the program in account 0 with the remaining accounts, signing with its
/// own "outbox_item_signer" PDA when that PDA is among them and byte 0 of the data is 1.
/// Byte 1 is a bit mask: account 1+i is passed on as a signer.
fn e_fake(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    use solana_sdk::instruction::{AccountMeta, Instruction};
    let (pda, bump) = Pubkey::find_program_address(&[b"outbox_item_signer"], p);
    let accounts = a[1..]
        .iter()
        .enumerate()
        .map(|(i, x)| AccountMeta {
            pubkey: *x.key,
            is_signer: (*x.key == pda && d[0] == 1) || x.is_signer && (d[1] >> i) & 1 == 1,
            is_writable: x.is_writable,
        })
        .collect();
    let ix = Instruction {
        program_id: *a[0].key,
        accounts,
        data: d[2..].to_vec(),
    };
    solana_sdk::program::invoke_signed(&ix, a, &[&[b"outbox_item_signer", &[bump]]])
}

pub fn native_table() -> HashMap<Pubkey, NativeFn> {
    let mut m: HashMap<Pubkey, NativeFn> = HashMap::new();
    m.insert(ntt(), e_ntt);
    m.insert(standalone(), e_standalone);
    m.insert(quoter(), e_quoter);
    m.insert(governance(), e_governance);
    m.insert(hook(), e_hook);
    m.insert(token(), e_token);
    m.insert(token22(), e_token22);
    m.insert(ata_program(), e_ata);
    m.insert(noop_program(), e_noop);
    for i in 0..N_FAKE {
        m.insert(fake_transceiver(i), e_fake);
    }
    m
}
