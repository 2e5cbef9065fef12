//! A deployment of the manager on an in-process ledger, for demonstrations.
#![allow(dead_code)]
pub use crate::{ix::*, keys::*, state::*, svm::*};
pub use solana_sdk::{
    account::{ReadableAccount, WritableAccount},
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};

pub struct K {
    pub svm: Svm,
    pub mint: Pubkey,
    pub tp: Pubkey,
    pub mode: u8,
    pub dec: u8,
    pub chain: u16,
    pub owner: Pubkey,
    pub user: Pubkey,
    pub user2: Pubkey,
    pub payer: Pubkey,
    n: u64,
}

/// The demonstration's verdict.
pub fn expect(cond: bool, what: &str) {
    if !cond {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
    println!("ok: {what}");
}

pub const LOCK: u8 = 0;
pub const BURN: u8 = 1;
pub const DAY: i64 = 86400;

impl K {
    /// Programs, a mint of `dec` decimals and three funded users; nothing initialised.
    pub fn bare(mode: u8, dec: u8) -> K {
        K::bare_fee(mode, dec, None)
    }
    /// The same, with a Token-2022 mint charging a transfer fee (basis points, maximum).
    pub fn bare_fee(mode: u8, dec: u8, fee: Option<(u16, u64)>) -> K {
        init_env();
        let svm = Svm::new(1_750_000_000);
        let mut k = K { svm, mint: Pubkey::default(), tp: SPL, mode, dec, chain: 1, owner: Pubkey::default(), user: Pubkey::default(), user2: Pubkey::default(), payer: Pubkey::default(), n: 0 };
        k.mint = k.key();
        k.owner = k.funded();
        k.user = k.funded();
        k.user2 = k.funded();
        k.payer = k.funded();
        for p in [NTT, XCVR, QUOTER, GOV] {
            k.svm.deploy(p, Some(k.owner));
        }
        for p in [HOOK, SPL, SPL22, ATA_PROGRAM, CORE_BRIDGE] {
            k.svm.deploy(p, None);
        }
        let coll = rent_for(0);
        let mut b = 0u32.to_le_bytes().to_vec();
        b.extend_from_slice(&coll.to_le_bytes());
        b.extend_from_slice(&86400u32.to_le_bytes());
        b.extend_from_slice(&100u64.to_le_bytes());
        k.svm.set(bridge(), acct(rent_for(24), b, CORE_BRIDGE));
        k.svm.set(fee_collector(), acct(coll, vec![], SYSTEM));
        let mut len = 82;
        if fee.is_some() {
            k.tp = SPL22;
            len = spl_token_2022::extension::ExtensionType::try_calculate_account_len::<spl_token_2022::state::Mint>(&[spl_token_2022::extension::ExtensionType::TransferFeeConfig]).unwrap();
        }
        let tp = k.tp;
        k.svm.set(k.mint, acct(rent_for(len), vec![0; len], tp));
        if let Some((bps, max)) = fee {
            let ix = spl_token_2022::extension::transfer_fee::instruction::initialize_transfer_fee_config(&tp, &k.mint, None, None, bps, max).unwrap();
            k.must(ix);
        }
        let mut ix = spl_token::instruction::initialize_mint2(&SPL, &k.mint, &k.owner, None, dec).unwrap();
        ix.program_id = tp;
        k.must(ix);
        for u in [k.owner, k.user, k.user2] {
            let a = k.ata(u);
            let mut ix = spl_token::instruction::mint_to(&SPL, &k.mint, &a, &k.owner, &[], 1_000_000_000_000_000_000).unwrap();
            ix.program_id = tp;
            k.must(ix);
        }
        if mode == BURN {
            let mut ix = spl_token::instruction::set_authority(&SPL, &k.mint, Some(&token_authority()), spl_token::instruction::AuthorityType::MintTokens, &k.owner, &[]).unwrap();
            ix.program_id = tp;
            k.must(ix);
        }
        k
    }
    /// An initialised manager with its own Wormhole transceiver registered.
    pub fn new(mode: u8, dec: u8, limit: u64) -> K {
        K::new_fee(mode, dec, limit, None)
    }
    pub fn new_fee(mode: u8, dec: u8, limit: u64, fee: Option<(u16, u64)>) -> K {
        let mut k = K::bare_fee(mode, dec, fee);
        let c = initialize(k.payer, k.owner, k.mint, k.tp, k.chain, limit, mode);
        k.ok(c);
        k.register(NTT);
        k
    }
    pub fn register(&mut self, x: Pubkey) {
        let c = register(self.owner, self.payer, x);
        self.ok(c);
    }
    pub fn key(&mut self) -> Pubkey {
        self.n += 1;
        Pubkey::new_from_array(solana_sdk::hash::hash(&self.n.to_le_bytes()).to_bytes())
    }
    pub fn funded(&mut self) -> Pubkey {
        let k = self.key();
        self.svm.set(k, acct(1_000_000_000_000, vec![], SYSTEM));
        k
    }
    pub fn must(&mut self, ix: Instruction) {
        let p = self.payer;
        if let Err(e) = self.svm.execute(&p, &[ix]) {
            panic!("setup failed: {e}");
        }
    }
    pub fn go(&mut self, c: Call) -> Result<TxOk, String> {
        let p = self.payer;
        self.svm.execute(&p, &[c.instruction()])
    }
    pub fn ok(&mut self, c: Call) -> TxOk {
        let l = c.op.label();
        match self.go(c) {
            Ok(t) => t,
            Err(e) => {
                println!("FAILED: {l} was refused: {e}");
                std::process::exit(1);
            }
        }
    }
    pub fn ata(&mut self, owner: Pubkey) -> Pubkey {
        let a = ata(&owner, &self.mint, &self.tp);
        if self.svm.lamports(&a) == 0 {
            let ix = spl_associated_token_account::instruction::create_associated_token_account(&self.payer, &owner, &self.mint, &self.tp);
            self.must(ix);
        }
        a
    }
    /// another token account of `owner`, not its associated one
    pub fn tok(&mut self, owner: Pubkey) -> Pubkey {
        let a = self.key();
        self.svm.set(a, acct(rent_for(165), vec![0; 165], SPL));
        let ix = spl_token::instruction::initialize_account3(&SPL, &a, &self.mint, &owner).unwrap();
        self.must(ix);
        a
    }
    pub fn bal(&self, a: &Pubkey) -> u64 {
        match parse(&self.svm.get(a)) {
            St::Tok(t) => t.amount,
            _ => 0,
        }
    }
    pub fn custody(&self) -> Pubkey {
        ata(&token_authority(), &self.mint, &self.tp)
    }
    pub fn config(&self) -> Config {
        Config::parse(self.svm.data(&config())).unwrap()
    }
    pub fn set_config(&mut self, c: &Config) {
        let mut a = self.svm.get(&config());
        let mut b = c.bytes();
        b.resize(a.data().len(), 0);
        a.set_data_from_slice(&b);
        self.svm.set(config(), a);
    }
    /// the owner's choice of threshold (recorded in the configuration; no instruction sets it yet)
    pub fn threshold(&mut self, t: u8) {
        let mut c = self.config();
        c.threshold = t;
        self.set_config(&c);
    }
    pub fn outbox(&self, item: &Pubkey) -> Outbox {
        Outbox::parse(self.svm.data(item)).unwrap()
    }
    pub fn out_capacity(&self) -> u64 {
        match parse(&self.svm.get(&outbox_rl())) {
            St::Orl(r) => r.at(self.svm.now()),
            s => panic!("{s:?}"),
        }
    }
    pub fn in_capacity(&self, chain: u16) -> u64 {
        match parse(&self.svm.get(&inbox_rl(chain).0)) {
            St::Irl { rate, .. } => rate.at(self.svm.now()),
            s => panic!("{s:?}"),
        }
    }
    pub fn peer(&mut self, chain: u16, addr: [u8; 32], limit: u64, dec: u8) {
        let c = set_peer(self.owner, self.payer, chain, addr, limit, dec);
        self.ok(c);
    }
    pub fn xpeer(&mut self, prog: Pubkey, chain: u16, addr: [u8; 32]) {
        let c = set_xpeer(prog, self.owner, self.payer, chain, addr);
        self.ok(c);
    }
    pub fn approve(&mut self, from: Pubkey, owner: Pubkey, a: TArgs) {
        let s = session(&owner, &a.digest());
        let mut ix = spl_token::instruction::approve(&SPL, &from, &s, &owner, &[], a.amount).unwrap();
        ix.program_id = self.tp;
        self.must(ix);
    }
    pub fn transfer_call(&mut self, from: Pubkey, owner: Pubkey, a: TArgs) -> (Call, Pubkey) {
        let item = self.key();
        (transfer(self.mode == BURN, a, self.payer, self.mint, from, owner, self.tp, item, self.custody()), item)
    }
    /// approve and send from the user's associated account
    pub fn send(&mut self, owner: Pubkey, amount: u64, chain: u16, to: [u8; 32], queue: bool) -> Result<Pubkey, String> {
        let from = self.ata(owner);
        let a = TArgs { amount, chain, to, queue };
        self.approve(from, owner, a.clone());
        let (c, item) = self.transfer_call(from, owner, a);
        self.go(c).map(|_| item)
    }
    pub fn vaa(&mut self, chain: u16, emitter: [u8; 32], seq: u64, payload: Vec<u8>) -> Pubkey {
        let k = self.key();
        let b = Posted::vaa(chain, emitter, seq, payload).bytes();
        self.svm.set(k, acct(rent_for(b.len()), b, CORE_BRIDGE));
        k
    }
    pub fn msg(&mut self, amount: u64, decimals: u8, to: Pubkey) -> Msg {
        let id = self.key().to_bytes();
        Msg { id, sender: [7; 32], amount, decimals, token: [9; 32], to: to.to_bytes(), to_chain: self.chain }
    }
    /// Deliver a message through `prog` and vote for it.
    pub fn receive(&mut self, prog: Pubkey, from: u16, emitter: [u8; 32], src: [u8; 32], m: &Msg) -> Result<Pubkey, String> {
        let wire = m.transceiver_wire(&src, &NTT.to_bytes(), &[]);
        let seq = self.n;
        let v = self.vaa(from, emitter, seq, wire);
        let c = receive(prog, self.payer, v, from, &m.id);
        self.go(c).map(|_| xmsg(&prog, from, &m.id))
    }
    pub fn redeem(&mut self, prog: Pubkey, from: u16, m: &Msg) -> Result<Pubkey, String> {
        let inbox = m.inbox(from).0;
        let c = redeem(self.payer, from, xmsg(&prog, from, &m.id), &prog, self.mint, inbox);
        self.go(c).map(|_| inbox)
    }
    pub fn release(&mut self, inbox: Pubkey, to: Pubkey, revert: bool) -> Result<(), String> {
        let c = release_in(self.mode == BURN, revert, self.payer, inbox, to, self.mint, self.tp, self.custody());
        self.go(c).map(|_| ())
    }
    pub fn publish(&mut self, prog: Pubkey, item: Pubkey, revert: bool) -> Result<Option<Posted>, String> {
        let c = release_out(prog, revert, self.payer, item);
        self.go(c)?;
        Ok(Posted::parse(self.svm.data(&wh_message(&prog, &item))))
    }
}
