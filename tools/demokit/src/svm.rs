//! A minimal ledger around the real Solana runtime (`solana-program-runtime`,
//! 1.18): transactions go through `MessageProcessor`, so signer/writable
//! privileges, account ownership, lamport balancing, re-entrancy and PDA
//! signing are enforced by the real runtime code. The programs under test run
//! natively (compiled from /repo with overflow checks, as in production); the
//! Wormhole core bridge runs from its real mainnet ELF.
use solana_bpf_loader_program::{serialization::serialize_parameters, syscalls::create_program_runtime_environment_v1};
use solana_program_runtime::{
    compute_budget::ComputeBudget,
    invoke_context::InvokeContext,
    loaded_programs::{LoadProgramMetrics, LoadedProgram, LoadedProgramsForTxBatch, ProgramRuntimeEnvironments},
    message_processor::MessageProcessor,
    solana_rbpf::{declare_builtin_function, memory_region::MemoryMapping},
    sysvar_cache::SysvarCache,
    timings::ExecuteTimings,
};
use solana_sdk::{
    account::{create_account_shared_data_for_test, AccountSharedData, ReadableAccount, WritableAccount},
    account_info::AccountInfo,
    bpf_loader_upgradeable::{self, UpgradeableLoaderState},
    clock::Clock,
    entrypoint::{deserialize, ProgramResult, SUCCESS},
    epoch_schedule::EpochSchedule,
    feature_set::FeatureSet,
    hash::Hash,
    instruction::{AccountMeta, Instruction, InstructionError},
    message::{LegacyMessage, Message, SanitizedMessage},
    native_loader,
    program_error::UNSUPPORTED_SYSVAR,
    pubkey::Pubkey,
    rent::Rent,
    slot_hashes::SlotHashes,
    stable_layout::stable_instruction::StableInstruction,
    sysvar::{self, Sysvar, SysvarId},
    transaction_context::{IndexOfAccount, TransactionContext},
};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap, HashSet},
    sync::{Arc, OnceLock},
};

pub type NativeFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

pub struct Env {
    natives: HashMap<Pubkey, NativeFn>,
    entries: Vec<(Pubkey, Arc<LoadedProgram>)>,
    environments: ProgramRuntimeEnvironments,
    features: Arc<FeatureSet>,
    budget: ComputeBudget,
    pub rent: Rent,
}

static ENV: OnceLock<Env> = OnceLock::new();

pub fn env() -> &'static Env {
    ENV.get().expect("svm env")
}

/// One invocation of a program (top level or CPI), as the callee saw it.
#[derive(Clone, Debug)]
pub struct Invocation {
    pub height: usize,
    pub program: Pubkey,
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
}

thread_local! {
    static CTX: Cell<usize> = Cell::new(0);
    static TRACE: RefCell<Vec<Invocation>> = RefCell::new(Vec::new());
    pub static LOGS: RefCell<Option<Vec<String>>> = RefCell::new(None);
    static IN_TX: Cell<bool> = Cell::new(false);
    pub static TX_COUNT: Cell<u64> = Cell::new(0);
}

fn ctx<'a, 'b>() -> &'a mut InvokeContext<'b> {
    let p = CTX.with(|c| c.get());
    assert!(p != 0, "no invoke context");
    unsafe { &mut *(p as *mut InvokeContext<'b>) }
}

struct TxAbort(String);

fn abort(msg: String) -> ! {
    std::panic::panic_any(TxAbort(msg))
}

fn run_native(f: NativeFn, ic: &mut InvokeContext) -> Result<u64, Box<dyn std::error::Error>> {
    CTX.with(|c| c.set(ic as *mut _ as usize));
    ic.consume_checked(1)?;
    let tc = &ic.transaction_context;
    let inst = tc.get_current_instruction_context()?;
    let data = inst.get_instruction_data().to_vec();
    let n = inst.get_number_of_instruction_accounts();
    let (mut bytes, _r, _l) = serialize_parameters(tc, inst, true)?;
    let (program_id, infos, _input) = unsafe { deserialize(&mut bytes.as_slice_mut()[0] as *mut u8) };
    f(program_id, &infos, &data).map_err(|e| Box::new(InstructionError::from(u64::from(e))) as Box<dyn std::error::Error>)?;
    let map: HashMap<Pubkey, AccountInfo> = infos.into_iter().map(|a| (*a.key, a)).collect();
    let tc = &ic.transaction_context;
    let inst = tc.get_current_instruction_context()?;
    let idx: HashSet<IndexOfAccount> = (0..n).collect();
    for i in idx {
        let mut b = inst.try_borrow_instruction_account(tc, i)?;
        if let Some(info) = map.get(b.get_key()) {
            if b.get_lamports() != info.lamports() {
                b.set_lamports(info.lamports())?;
            }
            let d = info.data.borrow();
            if b.get_data() != &d[..] {
                b.set_data_from_slice(&d)?;
            }
            if b.get_owner() != info.owner {
                b.set_owner(info.owner.as_ref())?;
            }
        }
    }
    Ok(0)
}

fn record(ic: &InvokeContext) -> Result<Pubkey, Box<dyn std::error::Error>> {
    let tc = &ic.transaction_context;
    let inst = tc.get_current_instruction_context()?;
    let program = *inst.get_last_program_key(tc)?;
    let mut metas = vec![];
    for i in 0..inst.get_number_of_instruction_accounts() {
        let key = *tc.get_key_of_account_at_index(inst.get_index_of_instruction_account_in_transaction(i)?)?;
        metas.push(AccountMeta { pubkey: key, is_signer: inst.is_instruction_account_signer(i)?, is_writable: inst.is_instruction_account_writable(i)? });
    }
    let inv = Invocation { height: ic.get_stack_height(), program, metas, data: inst.get_instruction_data().to_vec() };
    TRACE.with(|t| t.borrow_mut().push(inv));
    Ok(program)
}

declare_builtin_function!(
    LoaderDispatch,
    fn rust(
        ic: &mut InvokeContext,
        _a0: u64,
        _a1: u64,
        _a2: u64,
        _a3: u64,
        _a4: u64,
        _mm: &mut MemoryMapping,
    ) -> Result<u64, Box<dyn std::error::Error>> {
        let program = record(ic)?;
        if program == bpf_loader_upgradeable::id() {
            return solana_bpf_loader_program::process_instruction_inner(ic);
        }
        if let Some(f) = env().natives.get(&program) {
            return run_native(*f, ic);
        }
        if env().entries.iter().any(|(k, _)| *k == program) {
            return solana_bpf_loader_program::process_instruction_inner(ic);
        }
        // any other deployed program in these worlds is a proxy (see `proxy`)
        run_native(proxy, ic)
    }
);

/// Stand-in for third-party programs (external transceivers, governed
/// programs, hostile callers). Data: [0xF0][n_seeds][len seed]*[n metas]
/// [signer|writable flags]*[ix data]: CPI into account[0] with account[1..1+n]
/// signing with the PDA for the given seeds (without bump: searched). Any
/// other data: succeed, touching nothing.
pub fn proxy(program_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.first() != Some(&0xF0) {
        return Ok(());
    }
    let mut p = 1;
    let mut seeds: Vec<Vec<u8>> = vec![];
    let ns = data[p];
    p += 1;
    for _ in 0..ns {
        let l = data[p] as usize;
        seeds.push(data[p + 1..p + 1 + l].to_vec());
        p += 1 + l;
    }
    let nm = data[p] as usize;
    p += 1;
    let flags = &data[p..p + nm];
    p += nm;
    let metas = flags
        .iter()
        .enumerate()
        .map(|(i, f)| AccountMeta { pubkey: *accounts[1 + i].key, is_signer: f & 1 != 0, is_writable: f & 2 != 0 })
        .collect();
    let ix = Instruction { program_id: *accounts[0].key, accounts: metas, data: data[p..].to_vec() };
    let sr: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
    if ns > 0 {
        let (_, bump) = Pubkey::find_program_address(&sr, program_id);
        let b = [bump];
        let mut full = sr.clone();
        full.push(&b);
        solana_sdk::program::invoke_signed(&ix, accounts, &[&full])?;
    } else {
        solana_sdk::program::invoke(&ix, accounts)?;
    }
    // hand the callee's return data on
    if let Some((_, d)) = solana_sdk::program::get_return_data() {
        solana_sdk::program::set_return_data(&d);
    }
    Ok(())
}

pub fn proxy_data(seeds: &[&[u8]], metas: &[AccountMeta], ix_data: &[u8]) -> Vec<u8> {
    let mut d = vec![0xF0, seeds.len() as u8];
    for s in seeds {
        d.push(s.len() as u8);
        d.extend_from_slice(s);
    }
    d.push(metas.len() as u8);
    for m in metas {
        d.push(m.is_signer as u8 | (m.is_writable as u8) << 1);
    }
    d.extend_from_slice(ix_data);
    d
}

fn get_sysvar<T: Default + Sysvar + Sized + serde_free::Clone2>(s: Result<Arc<T>, InstructionError>, addr: *mut u8) -> u64 {
    match s {
        Ok(v) => unsafe {
            *(addr as *mut T) = v.as_ref().clone2();
            SUCCESS
        },
        Err(_) => UNSUPPORTED_SYSVAR,
    }
}

mod serde_free {
    pub trait Clone2 {
        fn clone2(&self) -> Self;
    }
    impl<T: Clone> Clone2 for T {
        fn clone2(&self) -> Self {
            self.clone()
        }
    }
}

struct Stubs;
impl solana_sdk::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        LOGS.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(m.to_string())
            }
        });
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar(ctx().get_sysvar_cache().get_clock(), a)
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar(ctx().get_sysvar_cache().get_rent(), a)
    }
    fn sol_get_epoch_schedule_sysvar(&self, a: *mut u8) -> u64 {
        get_sysvar(ctx().get_sysvar_cache().get_epoch_schedule(), a)
    }
    fn sol_get_last_restart_slot(&self, a: *mut u8) -> u64 {
        get_sysvar(ctx().get_sysvar_cache().get_last_restart_slot(), a)
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (p, d) = ctx().transaction_context.get_return_data();
        if d.is_empty() {
            None
        } else {
            Some((*p, d.to_vec()))
        }
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let tc = &mut ctx().transaction_context;
        let caller = *tc.get_current_instruction_context().unwrap().get_last_program_key(tc).unwrap();
        tc.set_return_data(caller, data.to_vec()).unwrap();
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx().get_stack_height() as u64
    }
    fn sol_invoke_signed(&self, instruction: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        // As on chain, a failing CPI aborts the whole transaction.
        match invoke_signed_inner(instruction, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => abort(format!("cpi to {}: {e}", instruction.program_id)),
        }
    }
}

fn invoke_signed_inner(instruction: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), Box<dyn std::error::Error>> {
    let stable = StableInstruction::from(instruction.clone());
    let ic = ctx();
    let tc = &ic.transaction_context;
    let inst = tc.get_current_instruction_context()?;
    let caller = *inst.get_last_program_key(tc)?;
    let mut signers = vec![];
    for s in seeds {
        signers.push(Pubkey::create_program_address(s, &caller).map_err(|e| format!("{e:?}"))?);
    }
    let (accounts, program_indices) = ic.prepare_instruction(&stable, &signers)?;
    let tc = &ic.transaction_context;
    let inst = tc.get_current_instruction_context()?;
    let mut back = vec![];
    for a in accounts.iter() {
        let key = tc.get_key_of_account_at_index(a.index_in_transaction)?;
        let pos = infos.iter().position(|i| i.unsigned_key() == key).ok_or(InstructionError::MissingAccount)?;
        let info = &infos[pos];
        let mut b = inst.try_borrow_instruction_account(tc, a.index_in_caller)?;
        if b.get_lamports() != info.lamports() {
            b.set_lamports(info.lamports())?;
        }
        let d = info.try_borrow_data()?;
        if b.get_data() != &d[..] {
            b.set_data_from_slice(&d)?;
        }
        if b.get_owner() != info.owner {
            b.set_owner(info.owner.as_ref())?;
        }
        if a.is_writable {
            back.push((a.index_in_caller, pos));
        }
    }
    let mut cu = 0;
    ic.process_instruction(&stable.data, &accounts, &program_indices, &mut cu, &mut ExecuteTimings::default())?;
    CTX.with(|c| c.set(ic as *mut _ as usize));
    let tc = &ic.transaction_context;
    let inst = tc.get_current_instruction_context()?;
    for (ci, pos) in back {
        let b = inst.try_borrow_instruction_account(tc, ci)?;
        let info = &infos[pos];
        **info.try_borrow_mut_lamports()? = b.get_lamports();
        if info.owner != b.get_owner() {
            #[allow(invalid_reference_casting)]
            unsafe {
                *(info.owner as *const Pubkey as *mut Pubkey) = *b.get_owner();
            }
        }
        let nd = b.get_data();
        if info.data_len() != nd.len() {
            info.realloc(nd.len(), false).map_err(|e| format!("{e:?}"))?;
        }
        info.try_borrow_mut_data()?.clone_from_slice(nd);
    }
    Ok(())
}

macro_rules! wrap {
    ($f:expr) => {{
        fn w(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
            let a: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(a) };
            $f(p, a, d)
        }
        w as NativeFn
    }};
}

pub fn core_bridge_id() -> Pubkey {
    crate::keys::CORE_BRIDGE
}

/// Run `f`, turning a panic into `None` (and keeping it off stderr).
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    let was = IN_TX.with(|x| x.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    IN_TX.with(|x| x.set(was));
    r
}

pub fn init_env() {
    let mut natives: HashMap<Pubkey, NativeFn> = HashMap::new();
    natives.insert(example_native_token_transfers::ID, wrap!(example_native_token_transfers::entry));
    natives.insert(ntt_transceiver::ID, wrap!(ntt_transceiver::entry));
    natives.insert(ntt_quoter::ID, wrap!(ntt_quoter::entry));
    natives.insert(wormhole_governance::ID, wrap!(wormhole_governance::entry));
    natives.insert(dummy_transfer_hook::ID, wrap!(dummy_transfer_hook::entry));
    natives.insert(spl_token::id(), wrap!(spl_token::processor::Processor::process));
    natives.insert(spl_token_2022::id(), wrap!(spl_token_2022::processor::Processor::process));
    natives.insert(
        spl_associated_token_account::id(),
        wrap!(spl_associated_token_account::processor::process_instruction),
    );
    let features = Arc::new(FeatureSet::all_enabled());
    let budget = ComputeBudget { compute_unit_limit: 1 << 40, ..ComputeBudget::default() };
    let rt = Arc::new(create_program_runtime_environment_v1(&features, &budget, false, false).unwrap());
    let environments = ProgramRuntimeEnvironments { program_runtime_v1: rt.clone(), ..Default::default() };
    let elf = include_bytes!("/repo/solana/programs/example-native-token-transfers/tests/fixtures/mainnet_core_bridge.so");
    let mut entries = vec![];
    let core = LoadedProgram::new(&bpf_loader_upgradeable::id(), rt, 0, 0, None, elf, elf.len(), &mut LoadProgramMetrics::default()).expect("core bridge elf");
    entries.push((core_bridge_id(), Arc::new(core)));
    entries.push((solana_sdk::system_program::id(), Arc::new(LoadedProgram::new_builtin(0, 0, solana_system_program::system_processor::Entrypoint::vm))));
    entries.push((
        solana_address_lookup_table_program::id(),
        Arc::new(LoadedProgram::new_builtin(0, 0, solana_address_lookup_table_program::processor::Entrypoint::vm)),
    ));
    entries.push((bpf_loader_upgradeable::id(), Arc::new(LoadedProgram::new_builtin(0, 0, LoaderDispatch::vm))));
    let e = Env { natives, entries, environments, features, budget, rent: Rent::default() };
    let _ = ENV.set(e);
    solana_sdk::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_TX.with(|x| x.get()) {
            old(i)
        } else {
            LOGS.with(|l| {
                if let Ok(mut l) = l.try_borrow_mut() {
                    if let Some(v) = l.as_mut() {
                        v.push(format!("PANIC {i}"))
                    }
                }
            });
        }
    }));
}

#[derive(Clone)]
pub struct Svm {
    pub accounts: BTreeMap<Pubkey, AccountSharedData>,
    pub clock: Clock,
    pub slot_hashes: Vec<(u64, Hash)>,
}

#[derive(Clone, Debug)]
pub struct TxOk {
    pub trace: Vec<Invocation>,
    pub ret: Option<(Pubkey, Vec<u8>)>,
}

pub fn acct(lamports: u64, data: Vec<u8>, owner: Pubkey) -> AccountSharedData {
    let mut a = AccountSharedData::from(solana_sdk::account::Account { lamports, data, owner, executable: false, rent_epoch: u64::MAX });
    a.set_rent_epoch(u64::MAX);
    a
}

pub fn rent_for(len: usize) -> u64 {
    env().rent.minimum_balance(len)
}

impl Svm {
    pub fn new(unix: i64) -> Self {
        let clock = Clock { slot: 1000, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 1, unix_timestamp: unix };
        let mut s = Svm { accounts: BTreeMap::new(), clock, slot_hashes: (900..1000).rev().map(|s| (s, Hash::default())).collect() };
        for k in [solana_sdk::system_program::id(), solana_address_lookup_table_program::id(), bpf_loader_upgradeable::id()] {
            let mut a = acct(1, b"builtin".to_vec(), native_loader::id());
            a.set_executable(true);
            s.accounts.insert(k, a);
        }
        s
    }
    /// Deploy a program under the upgradeable loader.
    pub fn deploy(&mut self, id: Pubkey, authority: Option<Pubkey>) {
        let (pd, _) = Pubkey::find_program_address(&[id.as_ref()], &bpf_loader_upgradeable::id());
        let data = bincode::serialize(&UpgradeableLoaderState::Program { programdata_address: pd }).unwrap();
        let mut a = acct(rent_for(data.len()), data, bpf_loader_upgradeable::id());
        a.set_executable(true);
        self.accounts.insert(id, a);
        let mut data = bincode::serialize(&UpgradeableLoaderState::ProgramData { slot: 1, upgrade_authority_address: authority }).unwrap();
        data.resize(45 + 8, 0);
        self.accounts.insert(pd, acct(rent_for(data.len()), data, bpf_loader_upgradeable::id()));
    }
    pub fn get(&self, k: &Pubkey) -> AccountSharedData {
        self.accounts.get(k).cloned().unwrap_or_default()
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accounts.get(k).map(|a| a.data()).unwrap_or(&[])
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accounts.get(k).map(|a| a.lamports()).unwrap_or(0)
    }
    pub fn set(&mut self, k: Pubkey, a: AccountSharedData) {
        self.accounts.insert(k, a);
    }
    pub fn advance(&mut self, secs: i64) {
        self.clock.unix_timestamp += secs;
        self.clock.slot += 1 + (secs as u64).min(1000);
        let s = self.clock.slot;
        self.slot_hashes = (s.saturating_sub(60)..s).rev().map(|x| (x, Hash::default())).collect();
    }
    pub fn now(&self) -> i64 {
        self.clock.unix_timestamp
    }
    fn load(&self, k: &Pubkey) -> AccountSharedData {
        if *k == sysvar::clock::id() {
            create_account_shared_data_for_test(&self.clock)
        } else if *k == sysvar::rent::id() {
            create_account_shared_data_for_test(&env().rent)
        } else if *k == SlotHashes::id() {
            create_account_shared_data_for_test(&SlotHashes::new(&self.slot_hashes))
        } else {
            self.get(k)
        }
    }
    /// Execute one transaction. On error nothing changes.
    pub fn execute(&mut self, payer: &Pubkey, ixs: &[Instruction]) -> Result<TxOk, String> {
        TX_COUNT.with(|c| c.set(c.get() + 1));
        let msg = Message::new(ixs, Some(payer));
        let keys = msg.account_keys.clone();
        let sm = SanitizedMessage::Legacy(LegacyMessage::new(msg));
        let mut accts: Vec<(Pubkey, AccountSharedData)> = keys.iter().map(|k| (*k, self.load(k))).collect();
        let pre: Vec<AccountSharedData> = accts.iter().map(|(_, a)| a.clone()).collect();
        let mut idx = vec![];
        for i in sm.instructions() {
            let (_, a) = &accts[i.program_id_index as usize];
            if !a.executable() {
                return Err("program not executable".into());
            }
            idx.push(vec![i.program_id_index as IndexOfAccount]);
        }
        if !accts.iter().any(|(k, _)| *k == bpf_loader_upgradeable::id()) {
            accts.push((bpf_loader_upgradeable::id(), self.load(&bpf_loader_upgradeable::id())));
        }
        let e = env();
        let mut batch = LoadedProgramsForTxBatch::new(self.clock.slot, e.environments.clone(), None, 0);
        for (k, p) in &e.entries {
            batch.replenish(*k, p.clone());
        }
        let mut modified = LoadedProgramsForTxBatch::new(self.clock.slot, e.environments.clone(), None, 0);
        let mut sc = SysvarCache::default();
        sc.set_clock(self.clock.clone());
        sc.set_rent(e.rent.clone());
        sc.set_epoch_schedule(EpochSchedule::default());
        sc.set_slot_hashes(SlotHashes::new(&self.slot_hashes));
        let mut tc = TransactionContext::new(accts, e.rent.clone(), e.budget.max_invoke_stack_height, e.budget.max_instruction_trace_length);
        TRACE.with(|t| t.borrow_mut().clear());
        IN_TX.with(|x| x.set(true));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            MessageProcessor::process_message(
                &sm,
                &idx,
                &mut tc,
                None,
                &batch,
                &mut modified,
                e.features.clone(),
                e.budget,
                &mut ExecuteTimings::default(),
                &sc,
                Hash::default(),
                5000,
                &mut 0,
            )
        }));
        IN_TX.with(|x| x.set(false));
        CTX.with(|c| c.set(0));
        let trace = TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()));
        match res {
            Err(p) => {
                return Err(if let Some(a) = p.downcast_ref::<TxAbort>() {
                    a.0.clone()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    format!("panic: {s}")
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    format!("panic: {s}")
                } else {
                    "panic".into()
                });
            }
            Ok(Err(e)) => return Err(format!("{e:?}")),
            Ok(Ok(())) => {}
        }
        let (rp, rd) = tc.get_return_data();
        let ret = if rd.is_empty() { None } else { Some((*rp, rd.to_vec())) };
        let mut post = vec![];
        for (i, _) in keys.iter().enumerate() {
            post.push(tc.get_account_at_index(i as u16).unwrap().borrow().clone());
        }
        // no account may become (or stay, having moved) rent-paying
        for i in 0..keys.len() {
            let (a, b) = (&pre[i], &post[i]);
            if b.lamports() != 0 && b.lamports() < rent_for(b.data().len()) && (a.lamports() != b.lamports() || a.data().len() != b.data().len()) && a.lamports() < b.lamports() {
                return Err("insufficient funds for rent".into());
            }
        }
        for (i, k) in keys.iter().enumerate() {
            if sysvar::is_sysvar_id(k) {
                continue;
            }
            let mut p = post[i].clone();
            if p.lamports() == 0 {
                p = AccountSharedData::default();
            }
            if self.accounts.contains_key(k) || p != AccountSharedData::default() {
                if p == AccountSharedData::default() {
                    self.accounts.remove(k);
                } else {
                    self.accounts.insert(*k, p);
                }
            }
        }
        Ok(TxOk { trace, ret })
    }
}
