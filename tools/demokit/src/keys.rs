//! Program ids and derived addresses, computed from the documented seeds
//! (independently of the code under test).
use solana_sdk::{bpf_loader_upgradeable, pubkey, pubkey::Pubkey};
use std::{cell::RefCell, collections::HashMap};

pub const CORE_BRIDGE: Pubkey = pubkey!("worm2ZoG2kUd4vFXhvjh93UUH596ayRfgQ2MgjNMTth");
pub const NTT: Pubkey = pubkey!("nttiK1SepaQt6sZ4WGW5whvc9tEnGXGxuKeptcQPCcS");
pub const XCVR: Pubkey = pubkey!("Ee6jpX9oq2EsGuqGb6iZZxvtcpmMGZk8SAUbnQy4jcHR");
pub const QUOTER: Pubkey = pubkey!("NttQuoter1111111111111111111111111111111111");
pub const GOV: Pubkey = pubkey!("wgvEiKVzX9yyEoh41jZAdC6JqGUTS4CFXbFGBV5TKdZ");
pub const HOOK: Pubkey = pubkey!("BgabMDLaxsyB7eGMBt9L22MSk9KMrL4zY2iNe14kyFP5");
pub const SYSTEM: Pubkey = pubkey!("11111111111111111111111111111111");
pub const CLOCK: Pubkey = pubkey!("SysvarC1ock11111111111111111111111111111111");
pub const RENT: Pubkey = pubkey!("SysvarRent111111111111111111111111111111111");
pub const LUT_PROGRAM: Pubkey = pubkey!("AddressLookupTab1e1111111111111111111111111");
pub const SPL: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const SPL22: Pubkey = pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA_PROGRAM: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");

thread_local! {
    static CACHE: RefCell<HashMap<(Pubkey, Vec<Vec<u8>>), (Pubkey, u8)>> = RefCell::new(HashMap::new());
}

pub fn pda(program: &Pubkey, seeds: &[&[u8]]) -> (Pubkey, u8) {
    let key = (*program, seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>());
    if let Some(r) = CACHE.with(|c| c.borrow().get(&key).copied()) {
        return r;
    }
    let r = Pubkey::find_program_address(seeds, program);
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 200_000 {
            c.clear();
        }
        c.insert(key, r);
    });
    r
}

pub fn loader() -> Pubkey {
    bpf_loader_upgradeable::id()
}
pub fn config() -> Pubkey {
    pda(&NTT, &[b"config"]).0
}
pub fn outbox_rl() -> Pubkey {
    pda(&NTT, &[b"outbox_rate_limit"]).0
}
pub fn inbox_rl(chain: u16) -> (Pubkey, u8) {
    pda(&NTT, &[b"inbox_rate_limit", &chain.to_be_bytes()])
}
pub fn peer(chain: u16) -> (Pubkey, u8) {
    pda(&NTT, &[b"peer", &chain.to_be_bytes()])
}
pub fn xpeer(prog: &Pubkey, chain: u16) -> (Pubkey, u8) {
    pda(prog, &[b"transceiver_peer", &chain.to_be_bytes()])
}
pub fn registered(x: &Pubkey) -> (Pubkey, u8) {
    pda(&NTT, &[b"registered_transceiver", x.as_ref()])
}
pub fn token_authority() -> Pubkey {
    pda(&NTT, &[b"token_authority"]).0
}
pub fn session(owner: &Pubkey, digest: &[u8; 32]) -> Pubkey {
    pda(&NTT, &[b"session_authority", owner.as_ref(), digest]).0
}
pub fn inbox_item(digest: &[u8; 32]) -> (Pubkey, u8) {
    pda(&NTT, &[b"inbox_item", digest])
}
pub fn xmsg(prog: &Pubkey, chain: u16, id: &[u8; 32]) -> Pubkey {
    pda(prog, &[b"transceiver_message", &chain.to_be_bytes(), id]).0
}
pub fn wh_message(prog: &Pubkey, item: &Pubkey) -> Pubkey {
    pda(prog, &[b"message", item.as_ref()]).0
}
pub fn emitter(prog: &Pubkey) -> Pubkey {
    pda(prog, &[b"emitter"]).0
}
pub fn sequence(emitter: &Pubkey) -> Pubkey {
    pda(&CORE_BRIDGE, &[b"Sequence", emitter.as_ref()]).0
}
pub fn bridge() -> Pubkey {
    pda(&CORE_BRIDGE, &[b"Bridge"]).0
}
pub fn fee_collector() -> Pubkey {
    pda(&CORE_BRIDGE, &[b"fee_collector"]).0
}
pub fn item_signer(prog: &Pubkey) -> Pubkey {
    pda(prog, &[b"outbox_item_signer"]).0
}
pub fn upgrade_lock() -> Pubkey {
    pda(&NTT, &[b"upgrade_lock"]).0
}
pub fn program_data(prog: &Pubkey) -> Pubkey {
    pda(&loader(), &[prog.as_ref()]).0
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, tp: &Pubkey) -> Pubkey {
    pda(&ATA_PROGRAM, &[owner.as_ref(), tp.as_ref(), mint.as_ref()]).0
}
pub fn lut() -> (Pubkey, u8) {
    pda(&NTT, &[b"lut"])
}
pub fn lut_authority() -> Pubkey {
    pda(&NTT, &[b"lut_authority"]).0
}
pub fn lut_table(slot: u64) -> Pubkey {
    pda(&LUT_PROGRAM, &[lut_authority().as_ref(), &slot.to_le_bytes()]).0
}
pub fn hook_metas(mint: &Pubkey) -> Pubkey {
    pda(&HOOK, &[b"extra-account-metas", mint.as_ref()]).0
}
pub fn hook_counter() -> Pubkey {
    pda(&HOOK, &[b"counter"]).0
}
pub fn hook_dummy(owner: &Pubkey) -> Pubkey {
    pda(&HOOK, &[b"dummy_account", owner.as_ref()]).0
}
pub fn q_instance() -> Pubkey {
    pda(&QUOTER, &[b"instance"]).0
}
pub fn q_chain(chain: u16) -> (Pubkey, u8) {
    pda(&QUOTER, &[b"registered_chain", &chain.to_be_bytes()])
}
pub fn q_ntt(prog: &Pubkey) -> (Pubkey, u8) {
    pda(&QUOTER, &[b"registered_ntt", prog.as_ref()])
}
pub fn q_request(item: &Pubkey) -> Pubkey {
    pda(&QUOTER, &[b"relay_request", item.as_ref()]).0
}
pub fn gov() -> Pubkey {
    pda(&GOV, &[b"governance"]).0
}
pub fn gov_replay(chain: u16, emitter: &[u8; 32], seq: u64) -> (Pubkey, u8) {
    pda(&GOV, &[b"replay", &chain.to_be_bytes(), emitter, &seq.to_be_bytes()])
}
