//! A small single-threaded Solana runtime: real `solana-program-runtime` message processing over an
//! in-memory account table. Programs written in Rust run natively through their own entry points;
//! the Wormhole core bridge runs as the real mainnet ELF.
//!
//! Differences from `solana-program-test`: no bank, no fees, no slots; a native program that writes to
//! an account it may not write to makes the transaction fail (as on chain); a panic makes the transaction
//! fail (as on chain); nothing of a failed transaction is kept.

use solana_program_runtime::{
    compute_budget::ComputeBudget,
    invoke_context::InvokeContext,
    loaded_programs::{
        LoadProgramMetrics, LoadedProgram, LoadedProgramsForTxBatch, ProgramRuntimeEnvironments,
    },
    log_collector::LogCollector,
    message_processor::MessageProcessor,
    solana_rbpf::{declare_builtin_function, memory_region::MemoryMapping},
    sysvar_cache::SysvarCache,
    timings::ExecuteTimings,
};
use solana_sdk::{
    account::{Account, AccountSharedData, ReadableAccount},
    account_info::AccountInfo,
    bpf_loader, bpf_loader_upgradeable,
    clock::Clock,
    entrypoint::ProgramResult,
    epoch_schedule::EpochSchedule,
    feature_set::FeatureSet,
    instruction::{Instruction, InstructionError},
    message::{Message, SanitizedMessage},
    native_loader,
    program_error::ProgramError,
    pubkey::Pubkey,
    rent::Rent,
    slot_hashes::SlotHashes,
    stable_layout::stable_instruction::StableInstruction,
    sysvar,
    transaction_context::{IndexOfAccount, TransactionContext},
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{Arc, Once, OnceLock},
};

pub type NativeFn =
    for<'a, 'b, 'c, 'd> fn(&'a Pubkey, &'b [AccountInfo<'c>], &'d [u8]) -> ProgramResult;

// ---------------------------------------------------------------------------------------------
// native program table

fn natives() -> &'static HashMap<Pubkey, NativeFn> {
    static T: OnceLock<HashMap<Pubkey, NativeFn>> = OnceLock::new();
    T.get_or_init(crate::programs::native_table)
}

declare_builtin_function!(
    LoaderEntry,
    fn rust(
        invoke_context: &mut InvokeContext,
        a0: u64,
        a1: u64,
        a2: u64,
        a3: u64,
        a4: u64,
        mm: &mut MemoryMapping,
    ) -> Result<u64, Box<dyn std::error::Error>> {
        let key = *invoke_context
            .transaction_context
            .get_current_instruction_context()?
            .get_last_program_key(invoke_context.transaction_context)?;
        match natives().get(&key) {
            Some(f) => invoke_native(*f, invoke_context),
            None => {
                solana_bpf_loader_program::Entrypoint::rust(invoke_context, a0, a1, a2, a3, a4, mm)
            }
        }
    }
);

thread_local! {
    static INVOKE_CONTEXT: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static CPI_LOG: RefCell<Vec<Instruction>> = const { RefCell::new(Vec::new()) };
}

thread_local! { static DIRECT_CLOCK: std::cell::Cell<Option<i64>> = const { std::cell::Cell::new(None) }; }
/// the clock for code called directly, outside a transaction
pub fn set_direct_clock(t: Option<i64>) {
    DIRECT_CLOCK.with(|c| c.set(t));
}

struct CtxGuard;
impl CtxGuard {
    fn push(ic: &mut InvokeContext) -> Self {
        let p = ic as *mut InvokeContext as usize;
        INVOKE_CONTEXT.with(|s| s.borrow_mut().push(p));
        CtxGuard
    }
}
impl Drop for CtxGuard {
    fn drop(&mut self) {
        INVOKE_CONTEXT.with(|s| {
            s.borrow_mut().pop();
        });
    }
}
fn ctx<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = INVOKE_CONTEXT.with(|s| *s.borrow().last().expect("invoke context not set"));
    unsafe { &mut *(p as *mut InvokeContext<'b>) }
}

fn berr(e: InstructionError) -> Box<dyn std::error::Error> {
    Box::new(e)
}

fn invoke_native(f: NativeFn, ic: &mut InvokeContext) -> Result<u64, Box<dyn std::error::Error>> {
    ic.consume_checked(1)?;
    let ix_data = ic
        .transaction_context
        .get_current_instruction_context()?
        .get_instruction_data()
        .to_vec();
    let n_accounts = ic
        .transaction_context
        .get_current_instruction_context()?
        .get_number_of_instruction_accounts();
    let (mut params, _regions, _lens) =
        solana_bpf_loader_program::serialization::serialize_parameters(
            ic.transaction_context,
            ic.transaction_context.get_current_instruction_context()?,
            true,
        )?;
    let (program_id, infos, _d) =
        unsafe { solana_sdk::entrypoint::deserialize(&mut params.as_slice_mut()[0] as *mut u8) };

    let res = {
        let _g = CtxGuard::push(ic);
        catch_unwind(AssertUnwindSafe(|| f(program_id, &infos, &ix_data)))
    };
    match res {
        Err(_) => return Err(berr(InstructionError::ProgramFailedToComplete)),
        Ok(Err(e)) => return Err(berr(InstructionError::from(u64::from(e)))),
        Ok(Ok(())) => {}
    }

    // write the program's changes back, refusing those the runtime refuses
    let tc = &ic.transaction_context;
    let ixc = tc.get_current_instruction_context()?;
    for i in 0..n_accounts {
        if ixc.is_instruction_account_duplicate(i)?.is_some() {
            continue;
        }
        let mut acc = ixc.try_borrow_instruction_account(tc, i)?;
        let info = &infos[i as usize];
        if acc.get_lamports() != info.lamports() {
            acc.set_lamports(info.lamports())?;
        }
        let data = info
            .try_borrow_data()
            .map_err(|_| berr(InstructionError::AccountBorrowFailed))?;
        if acc.get_data() != &data[..] {
            acc.can_data_be_resized(data.len())?;
            acc.can_data_be_changed()?;
            acc.set_data_from_slice(&data)?;
        }
        if acc.get_owner() != info.owner {
            acc.set_owner(info.owner.as_ref())?;
        }
    }
    Ok(0)
}

struct Stubs;

fn sv<T: Clone>(r: Result<Arc<T>, InstructionError>, var_addr: *mut u8) -> u64 {
    match r {
        Ok(v) => {
            unsafe { *(var_addr as *mut T) = T::clone(&v) };
            0
        }
        Err(_) => solana_sdk::program_error::UNSUPPORTED_SYSVAR,
    }
}

impl solana_sdk::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        if let Some(l) = ctx().get_log_collector() {
            l.borrow_mut().log(message);
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        fn pe(e: InstructionError) -> ProgramError {
            ProgramError::try_from(e).unwrap_or(ProgramError::Custom(0xFFFF_FFFE))
        }
        let ic = ctx();
        let caller = *ic
            .transaction_context
            .get_current_instruction_context()
            .and_then(|c| c.get_last_program_key(ic.transaction_context))
            .map_err(pe)?;
        let mut signers = vec![];
        for s in signers_seeds {
            signers.push(
                Pubkey::create_program_address(s, &caller)
                    .map_err(|_| ProgramError::InvalidSeeds)?,
            );
        }
        // On chain a failed CPI ends the whole transaction: the caller never sees the error. Model that by
        // unwinding to the enclosing native frame.
        let r = cpi(ic, instruction, account_infos, &signers);
        if let Err(e) = r {
            if let Some(l) = ic.get_log_collector() {
                l.borrow_mut().log(&format!(
                    "CPI to {} failed: {:?}",
                    instruction.program_id, e
                ));
            }
            std::panic::panic_any(CpiFailed);
        }
        CPI_LOG.with(|c| c.borrow_mut().push(instruction.clone()));
        Ok(())
    }
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        if let Some(t) = DIRECT_CLOCK.with(|c| c.get()) {
            let c = Clock { slot: 1_000, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 1, unix_timestamp: t };
            unsafe { *(a as *mut Clock) = c };
            return 0;
        }
        sv(ctx().get_sysvar_cache().get_clock(), a)
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        sv(ctx().get_sysvar_cache().get_rent(), a)
    }
    fn sol_get_epoch_schedule_sysvar(&self, a: *mut u8) -> u64 {
        sv(ctx().get_sysvar_cache().get_epoch_schedule(), a)
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (p, d) = ctx().transaction_context.get_return_data();
        if d.is_empty() {
            None
        } else {
            Some((*p, d.to_vec()))
        }
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let ic = ctx();
        if let Ok(caller) = ic
            .transaction_context
            .get_current_instruction_context()
            .and_then(|c| c.get_last_program_key(ic.transaction_context).copied())
        {
            let _ = ic
                .transaction_context
                .set_return_data(caller, data.to_vec());
        }
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().get_stack_height() as u64
    }
}

pub struct CpiFailed;

fn cpi(
    ic: &mut InvokeContext,
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers: &[Pubkey],
) -> Result<(), InstructionError> {
    let stable = StableInstruction::from(instruction.clone());
    let (ix_accounts, program_indices) = ic.prepare_instruction(&stable, signers)?;
    let mut back = vec![];
    {
        let tc = &ic.transaction_context;
        let ixc = tc.get_current_instruction_context()?;
        let mut done: Vec<IndexOfAccount> = vec![];
        for ia in ix_accounts.iter() {
            if done.contains(&ia.index_in_transaction) {
                continue;
            }
            done.push(ia.index_in_transaction);
            let key = tc.get_key_of_account_at_index(ia.index_in_transaction)?;
            let info_idx = account_infos
                .iter()
                .position(|a| a.key == key)
                .ok_or(InstructionError::MissingAccount)?;
            let info = &account_infos[info_idx];
            let mut acc = ixc.try_borrow_instruction_account(tc, ia.index_in_caller)?;
            if acc.get_lamports() != info.lamports() {
                acc.set_lamports(info.lamports())?;
            }
            {
                let data = info
                    .try_borrow_data()
                    .map_err(|_| InstructionError::AccountBorrowFailed)?;
                if acc.get_data() != &data[..] {
                    acc.can_data_be_resized(data.len())?;
                    acc.can_data_be_changed()?;
                    acc.set_data_from_slice(&data)?;
                }
            }
            if acc.get_owner() != info.owner {
                acc.set_owner(info.owner.as_ref())?;
            }
            if ia.is_writable {
                back.push((ia.index_in_caller, info_idx));
            }
        }
    }
    let mut cu = 0;
    ic.process_instruction(
        &instruction.data,
        &ix_accounts,
        &program_indices,
        &mut cu,
        &mut ExecuteTimings::default(),
    )?;
    let tc = &ic.transaction_context;
    let ixc = tc.get_current_instruction_context()?;
    for (in_caller, info_idx) in back {
        let acc = ixc.try_borrow_instruction_account(tc, in_caller)?;
        let info = &account_infos[info_idx];
        **info
            .try_borrow_mut_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)? = acc.get_lamports();
        if info.owner != acc.get_owner() {
            info.assign(acc.get_owner());
        }
        let new = acc.get_data();
        if info.data_len() != new.len() {
            info.realloc(new.len(), false)
                .map_err(|_| InstructionError::InvalidRealloc)?;
        }
        info.try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?
            .copy_from_slice(new);
    }
    Ok(())
}

pub fn global_init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        solana_sdk::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            // panics inside program code are transaction failures; only report the harness's own
            let in_program = INVOKE_CONTEXT
                .try_with(|s| !s.borrow().is_empty())
                .unwrap_or(false);
            if !in_program && (!crate::engine::quiet_panics() || std::env::var_os("VERIF_LOUD").is_some()) {
                default(info);
            }
        }));
    });
}

// ---------------------------------------------------------------------------------------------

pub struct Runtime {
    programs: LoadedProgramsForTxBatch,
    features: Arc<FeatureSet>,
    budget: ComputeBudget,
}

thread_local! {
    static RT: Rc<Runtime> = Rc::new(Runtime::new());
}

impl Runtime {
    fn new() -> Self {
        let features = Arc::new(FeatureSet::all_enabled());
        let budget = ComputeBudget {
            compute_unit_limit: 50_000_000,
            heap_size: 256 * 1024,
            ..ComputeBudget::default()
        };
        let env = Arc::new(
            solana_bpf_loader_program::syscalls::create_program_runtime_environment_v1(
                &features, &budget, false, false,
            )
            .unwrap(),
        );
        let envs = ProgramRuntimeEnvironments {
            program_runtime_v1: env.clone(),
            program_runtime_v2: env.clone(),
        };
        let mut programs = LoadedProgramsForTxBatch::new(1_000, envs, None, 0);
        let mut add = |k: Pubkey, e: LoadedProgram| {
            programs.replenish(k, Arc::new(e));
        };
        add(
            solana_sdk::system_program::id(),
            LoadedProgram::new_builtin(
                0,
                0,
                solana_system_program::system_processor::Entrypoint::vm,
            ),
        );
        add(
            bpf_loader_upgradeable::id(),
            LoadedProgram::new_builtin(0, 0, LoaderEntry::vm),
        );
        add(
            bpf_loader::id(),
            LoadedProgram::new_builtin(0, 0, LoaderEntry::vm),
        );
        add(
            solana_sdk::address_lookup_table::program::id(),
            LoadedProgram::new_builtin(
                0,
                0,
                solana_address_lookup_table_program::processor::Entrypoint::vm,
            ),
        );
        let elf = crate::programs::core_bridge_elf();
        let lp = LoadedProgram::new(
            &bpf_loader_upgradeable::id(),
            env,
            0,
            0,
            None,
            elf,
            elf.len(),
            &mut LoadProgramMetrics::default(),
        )
        .expect("core bridge ELF loads");
        add(crate::programs::core_bridge_id(), lp);
        Runtime {
            programs,
            features,
            budget,
        }
    }
}

#[derive(Clone)]
pub struct Svm {
    pub db: BTreeMap<Pubkey, Account>,
    pub clock: Clock,
    sysvars: SysvarCache,
    pub last_logs: Vec<String>,
    pub want_logs: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TxErr(pub String);

pub struct TxOk {
    /// accounts that differ after the transaction, with their previous contents
    pub changed: Vec<Pubkey>,
    /// successful cross-program invocations made by native programs
    pub cpis: Vec<Instruction>,
    pub return_data: Option<(Pubkey, Vec<u8>)>,
}

pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

impl Svm {
    pub fn new() -> Self {
        global_init();
        let mut s = Svm {
            db: BTreeMap::new(),
            clock: Clock {
                slot: 1_000,
                epoch_start_timestamp: 0,
                epoch: 0,
                leader_schedule_epoch: 1,
                unix_timestamp: 0,
            },
            sysvars: SysvarCache::default(),
            last_logs: vec![],
            want_logs: false,
        };
        s.sysvars.set_rent(Rent::default());
        s.sysvars
            .set_epoch_schedule(EpochSchedule::without_warmup());
        s.sysvars.set_slot_hashes(SlotHashes::new(
            &(0..64)
                .map(|i| {
                    (
                        990 - i,
                        solana_sdk::hash::Hash::new_from_array([i as u8; 32]),
                    )
                })
                .collect::<Vec<_>>(),
        ));
        s.put_sysvar(sysvar::rent::id(), &Rent::default());
        s.put_sysvar(
            sysvar::epoch_schedule::id(),
            &EpochSchedule::without_warmup(),
        );
        for (k, owner) in [
            (solana_sdk::system_program::id(), native_loader::id()),
            (bpf_loader_upgradeable::id(), native_loader::id()),
            (bpf_loader::id(), native_loader::id()),
            (
                solana_sdk::address_lookup_table::program::id(),
                native_loader::id(),
            ),
        ] {
            s.db.insert(
                k,
                Account {
                    lamports: 1,
                    data: b"builtin".to_vec(),
                    owner,
                    executable: true,
                    rent_epoch: u64::MAX,
                },
            );
        }
        s.set_time(1_700_000_000);
        s
    }

    fn put_sysvar<T: solana_sdk::sysvar::Sysvar>(&mut self, k: Pubkey, v: &T) {
        let a: AccountSharedData = solana_sdk::account::create_account_shared_data_for_test(v);
        self.db.insert(k, a.into());
    }

    pub fn now(&self) -> i64 {
        self.clock.unix_timestamp
    }

    pub fn set_time(&mut self, t: i64) {
        self.clock.unix_timestamp = t;
        let c = self.clock.clone();
        self.sysvars.set_clock(c.clone());
        self.put_sysvar(sysvar::clock::id(), &c);
    }

    pub fn set_slot(&mut self, slot: u64) {
        self.clock.slot = slot;
        let t = self.clock.unix_timestamp;
        self.set_time(t);
    }

    pub fn get(&self, k: &Pubkey) -> Option<&Account> {
        self.db.get(k)
    }

    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.db.get(k).map(|a| a.data.as_slice()).unwrap_or(&[])
    }

    pub fn put(&mut self, k: Pubkey, owner: Pubkey, data: Vec<u8>) {
        let lamports = rent_min(data.len());
        self.db.insert(
            k,
            Account {
                lamports,
                data,
                owner,
                executable: false,
                rent_epoch: u64::MAX,
            },
        );
    }

    pub fn put_program(&mut self, k: Pubkey, loader: Pubkey, data: Vec<u8>) {
        let lamports = rent_min(data.len());
        self.db.insert(
            k,
            Account {
                lamports,
                data,
                owner: loader,
                executable: true,
                rent_epoch: u64::MAX,
            },
        );
    }

    pub fn airdrop(&mut self, k: Pubkey, lamports: u64) {
        let e = self.db.entry(k).or_insert(Account {
            lamports: 0,
            data: vec![],
            owner: solana_sdk::system_program::id(),
            executable: false,
            rent_epoch: u64::MAX,
        });
        e.lamports += lamports;
    }

    /// Runs the instructions as one atomic transaction; the signers are whoever the metas say signs.
    pub fn tx(&mut self, payer: &Pubkey, ixs: &[Instruction]) -> Result<TxOk, TxErr> {
        set_direct_clock(None);
        let rt = RT.with(|r| r.clone());
        let msg = Message::new(ixs, Some(payer));
        let keys = msg.account_keys.clone();
        let program_indices: Vec<Vec<IndexOfAccount>> = msg
            .instructions
            .iter()
            .map(|i| vec![i.program_id_index as IndexOfAccount])
            .collect();
        let sm = SanitizedMessage::try_from(msg).map_err(|e| TxErr(format!("sanitize {e:?}")))?;
        for i in program_indices.iter() {
            let k = keys[i[0] as usize];
            if !self.db.get(&k).map(|a| a.executable).unwrap_or(false) {
                return Err(TxErr(format!("program {k} not executable")));
            }
        }
        let accounts: Vec<(Pubkey, AccountSharedData)> = keys
            .iter()
            .map(|k| {
                let a = if *k == sysvar::instructions::id() {
                    let data = solana_sdk::sysvar::instructions::construct_instructions_data(
                        &sm.decompile_instructions(),
                    );
                    Account {
                        lamports: 1,
                        data,
                        owner: sysvar::id(),
                        executable: false,
                        rent_epoch: 0,
                    }
                } else {
                    self.db.get(k).cloned().unwrap_or_default()
                };
                (*k, a.into())
            })
            .collect();
        let before: Vec<Account> = keys
            .iter()
            .map(|k| self.db.get(k).cloned().unwrap_or_default())
            .collect();
        let mut tc = TransactionContext::new(accounts, Rent::default(), 5, 64);
        let logs = if self.want_logs {
            Some(LogCollector::new_ref_with_limit(None))
        } else {
            None
        };
        CPI_LOG.with(|c| c.borrow_mut().clear());
        INVOKE_CONTEXT.with(|s| s.borrow_mut().clear());
        let mut modified = LoadedProgramsForTxBatch::default();
        let res = MessageProcessor::process_message(
            &sm,
            &program_indices,
            &mut tc,
            logs.clone(),
            &rt.programs,
            &mut modified,
            rt.features.clone(),
            rt.budget,
            &mut ExecuteTimings::default(),
            &self.sysvars,
            solana_sdk::hash::Hash::new_from_array([7; 32]),
            5000,
            &mut 0,
        );
        let cpis = CPI_LOG.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let return_data = {
            let (p, d) = tc.get_return_data();
            if d.is_empty() {
                None
            } else {
                Some((*p, d.to_vec()))
            }
        };
        if let Some(l) = logs {
            self.last_logs = l.borrow().get_recorded_content().to_vec();
        }
        res.map_err(|e| TxErr(format!("{e:?}")))?;
        let after = tc
            .deconstruct_without_keys()
            .map_err(|e| TxErr(format!("{e:?}")))?;
        let mut updates = vec![];
        for (i, (k, a)) in keys.iter().zip(after).enumerate() {
            if !sm.is_writable(i) {
                continue;
            }
            let a: Account = a.into();
            if a == before[i] {
                continue;
            }
            // rent state: a touched account ends empty or rent exempt (or no worse than it was)
            if a.lamports != 0 && !Rent::default().is_exempt(a.lamports, a.data().len()) {
                let b = &before[i];
                let was_paying =
                    b.lamports != 0 && !Rent::default().is_exempt(b.lamports, b.data.len());
                if !(was_paying && a.data.len() == b.data.len() && a.lamports <= b.lamports) {
                    return Err(TxErr(format!("{k} not rent exempt")));
                }
            }
            updates.push((*k, a));
        }
        let mut changed = vec![];
        for (k, a) in updates {
            if k == sysvar::instructions::id() {
                continue;
            }
            changed.push(k);
            if a.lamports == 0 {
                self.db.remove(&k);
            } else {
                self.db.insert(k, a);
            }
        }
        Ok(TxOk {
            changed,
            cpis,
            return_data,
        })
    }
}
