//! A deployment on one ledger, built through the real instructions, and the
//! hostile random workload that drives it.
use crate::{check::*, hist::*, ix::*, keys::*, rng::*, spec::*, state::*, svm::*};
use solana_sdk::{
    account::{ReadableAccount, WritableAccount},
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavor {
    Spl,
    T22,
    Hook,
    Fee(u16, u64),
    FeeHook(u16, u64),
}
impl Flavor {
    pub fn hook(&self) -> bool {
        matches!(self, Flavor::Hook | Flavor::FeeHook(..))
    }
    pub fn fee(&self) -> Option<(u16, u64)> {
        match self {
            Flavor::Fee(b, m) | Flavor::FeeHook(b, m) => Some((*b, *m)),
            _ => None,
        }
    }
}

thread_local! {
    /// Property in focus of the current episode, and what the episode reported so far.
    pub static FOCUS: std::cell::RefCell<String> = Default::default();
    pub static SINK: std::cell::RefCell<Vec<Violation>> = Default::default();
}

/// What a run observed.
#[derive(Default)]
pub struct Obs {
    pub steps: u64,
    pub accepted: u64,
    pub refused: u64,
    pub judged_props: BTreeMap<&'static str, u64>,
    pub sigs: BTreeMap<&'static str, BTreeMap<String, u64>>,
    pub violations: Vec<Violation>,
    pub log: Vec<String>,
    pub samples: BTreeMap<&'static str, BTreeMap<String, String>>,
}
impl Obs {
    /// Record that `prop` was evaluated on a situation of signature `sig`.
    pub fn saw(&mut self, prop: &'static str, sig: String, sample: impl FnOnce() -> String) {
        *self.judged_props.entry(prop).or_default() += 1;
        let m = self.sigs.entry(prop).or_default();
        if !m.contains_key(&sig) {
            let s = self.samples.entry(prop).or_default();
            if s.len() < 6 {
                s.insert(sig.clone(), sample());
            }
        }
        *m.entry(sig).or_default() += 1;
    }
    pub fn add(&mut self, v: Violation) {
        SINK.with(|s| s.borrow_mut().push(v.clone()));
        self.violations.push(v);
    }
    /// The property in focus was violated (or so much else that nothing more can be learnt).
    pub fn done(&self) -> bool {
        self.violations.len() > 25 || FOCUS.with(|f| self.violations.iter().any(|v| v.tags.contains(&f.borrow().as_str())))
    }
    pub fn violate(&mut self, tags: &[&'static str], what: String) {
        self.add(Violation { tags: tags.to_vec(), what });
    }
    pub fn merge(&mut self, o: Obs) {
        self.steps += o.steps;
        self.accepted += o.accepted;
        self.refused += o.refused;
        for (k, v) in o.judged_props {
            *self.judged_props.entry(k).or_default() += v;
        }
        for (p, m) in o.sigs {
            let t = self.sigs.entry(p).or_default();
            for (k, v) in m {
                *t.entry(k).or_default() += v;
            }
        }
        for (p, m) in o.samples {
            let t = self.samples.entry(p).or_default();
            for (k, v) in m {
                if t.len() < 12 {
                    t.entry(k).or_insert(v);
                }
            }
        }
        self.violations.extend(o.violations);
    }
}

#[derive(Clone, Debug)]
pub struct InMsg {
    pub from: u16,
    pub src: [u8; 32],
    pub rcpt: [u8; 32],
    pub msg: Msg,
}
#[derive(Clone, Debug)]
pub struct Delivered {
    pub x: Pubkey,
    pub vtm: Pubkey,
    pub m: InMsg,
}

pub struct World {
    pub svm: Svm,
    /// impossible accounts made up for one call only
    pub temp: Vec<Pubkey>,
    pub rng: Rng,
    pub obs: Obs,
    pub hist: Hist,
    pub verbose: bool,
    pub flavor: Flavor,
    pub mint: Pubkey,
    pub mint2: Pubkey,
    pub tp: Pubkey,
    pub mode: u8,
    pub decimals: u8,
    pub chain: u16,
    pub chains: Vec<u16>,
    pub spare: Vec<u16>,
    pub users: Vec<Pubkey>,
    pub signable: HashSet<Pubkey>,
    /// external transceiver programs (proxies)
    pub ext: Vec<Pubkey>,
    pub evil: Pubkey,
    pub toks: Vec<(Pubkey, Pubkey)>,
    pub items: Vec<Pubkey>,
    pub fake_items: Vec<Pubkey>,
    pub vaas: Vec<(Pubkey, Pubkey, u16, [u8; 32], InMsg)>,
    pub delivered: Vec<Delivered>,
    pub inboxes: Vec<Pubkey>,
    pub approvals: Vec<(Pubkey, TArgs)>,
    pub seq: u64,
    pub gov_vaas: Vec<(Pubkey, Option<Call>)>,
    pub quoter: bool,
    pub bridge_fee: u64,
    pub tempo: u64,
}

pub const FUND: u64 = 1_000_000_000_000_000;

pub fn chain_pool(r: &mut Rng) -> Vec<u16> {
    let (a, b) = (r.range(1, 254) as u16, r.range(1, 254) as u16);
    let base = a << 8 | b;
    let mut v = vec![base, base.swap_bytes(), a, b, a << 8, b << 8, base ^ 1, base ^ 0x100, 2, 1, 256, 512, 0x0201, 65535, base.wrapping_add(256), r.u64() as u16, if r.chance(1, 3) { 0 } else { 255 }];
    for i in (1..v.len()).rev() {
        v.swap(i, r.usize(i + 1));
    }
    let mut seen = BTreeSet::new();
    v.retain(|c| seen.insert(*c));
    v
}

pub fn token_ix(tp: Pubkey, mut ix: Instruction) -> Instruction {
    ix.program_id = tp;
    ix
}

impl World {
    /// A ledger with mint, users and programs, but without a deployment.
    pub fn blank(seed: u64, verbose: bool) -> World {
        let mut rng = Rng::new(seed);
        let flavor = match rng.below(10) {
            0..=3 => Flavor::Spl,
            4..=5 => Flavor::T22,
            6..=7 => Flavor::Hook,
            8 => Flavor::Fee(*rng.pick(&[0, 1, 50, 5000, 10000]), *rng.pick(&[0, 1, 1000, u64::MAX])),
            _ => Flavor::FeeHook(*rng.pick(&[0, 1, 100]), *rng.pick(&[0, 5, u64::MAX])),
        };
        let mode = rng.below(2) as u8;
        let decimals = *rng.pick(&[0u8, 1, 2, 5, 6, 7, 8, 9, 9, 10, 12, 18, 18, 19, 20, 27, 28, 40, 255]);
        Self::blank_with(rng, verbose, flavor, mode, decimals)
    }
    pub fn blank_with(mut rng: Rng, verbose: bool, flavor: Flavor, mode: u8, decimals: u8) -> World {
        let mut pool = chain_pool(&mut rng);
        let chain = if rng.chance(1, 2) { 1 } else { pool.pop().unwrap() };
        // a peer on the own chain is possible, if rarely sensible
        pool.retain(|c| *c != chain);
        if rng.chance(1, 6) {
            pool.insert(0, chain);
        }
        let n = rng.range(1, 4) as usize;
        let chains: Vec<u16> = pool.drain(..n).collect();
        let spare: Vec<u16> = pool.into_iter().take(3).collect();
        let mut svm = Svm::new(1_700_000_000 + rng.below(1 << 28) as i64);
        let users: Vec<Pubkey> = (0..5).map(|_| rng.key()).collect();
        let tp = if flavor == Flavor::Spl { SPL } else { SPL22 };
        let ext: Vec<Pubkey> = (0..3).map(|_| rng.key()).collect();
        let evil = rng.key();
        for k in users.iter().chain([&FEE]) {
            svm.set(*k, acct(FUND, vec![], SYSTEM));
        }
        for p in [NTT, XCVR, QUOTER, GOV] {
            svm.deploy(p, Some(users[0]));
        }
        for p in [HOOK, SPL, SPL22, ATA_PROGRAM, CORE_BRIDGE] {
            svm.deploy(p, None);
        }
        for p in ext.iter().chain([&evil]) {
            svm.deploy(*p, None);
        }
        // Wormhole core bridge configuration
        let bridge_fee = *rng.pick(&[0u64, 1, 100, 5000, 1_000_000]);
        let coll = rent_for(0) + rng.below(1000);
        let surplus = if rng.chance(1, 3) { rng.below(2_000_000) } else { 0 };
        let mut b = 0u32.to_le_bytes().to_vec();
        b.extend_from_slice(&coll.to_le_bytes());
        b.extend_from_slice(&86400u32.to_le_bytes());
        b.extend_from_slice(&bridge_fee.to_le_bytes());
        svm.set(bridge(), acct(rent_for(24), b, CORE_BRIDGE));
        svm.set(fee_collector(), acct(coll + surplus, vec![], SYSTEM));
        let mint = rng.key();
        let mint2 = rng.key();
        let signable = users.iter().copied().chain([FEE]).collect();
        let tempo = rng.range(1, 6);
        let mut w = World {
            temp: vec![],
            svm,
            rng,
            obs: Obs::default(),
            hist: Hist::default(),
            verbose,
            flavor,
            mint,
            mint2,
            tp,
            mode,
            decimals,
            chain,
            chains,
            spare,
            users,
            signable,
            ext,
            evil,
            toks: vec![],
            items: vec![],
            fake_items: vec![],
            vaas: vec![],
            delivered: vec![],
            inboxes: vec![],
            approvals: vec![],
            seq: 0,
            gov_vaas: vec![],
            quoter: false,
            bridge_fee,
            tempo,
        };
        w.make_mint(mint, true);
        w.make_mint(mint2, false);
        w.fund_users();
        w
    }

    pub fn raw(&mut self, ix: Instruction) -> bool {
        match self.svm.execute(&FEE, &[ix]) {
            Ok(_) => true,
            Err(e) => {
                if self.verbose {
                    println!("    raw failed: {e}");
                }
                false
            }
        }
    }

    fn make_mint(&mut self, mint: Pubkey, flavored: bool) {
        use spl_token_2022::{extension::ExtensionType, instruction as ti};
        let auth = self.users[0];
        let tp = self.tp;
        let mut ext = vec![];
        let fl = if flavored { self.flavor } else { Flavor::Spl };
        if fl.hook() {
            ext.push(ExtensionType::TransferHook);
        }
        if fl.fee().is_some() {
            ext.push(ExtensionType::TransferFeeConfig);
        }
        let len = ExtensionType::try_calculate_account_len::<spl_token_2022::state::Mint>(&ext).unwrap();
        self.svm.set(mint, acct(rent_for(len), vec![0; len], tp));
        if fl.hook() {
            let ix = spl_token_2022::extension::transfer_hook::instruction::initialize(&tp, &mint, None, Some(HOOK)).unwrap();
            assert!(self.raw(ix));
        }
        if let Some((bps, max)) = fl.fee() {
            let ix = spl_token_2022::extension::transfer_fee::instruction::initialize_transfer_fee_config(&tp, &mint, None, None, bps, max).unwrap();
            assert!(self.raw(ix));
        }
        let d = if flavored { self.decimals } else { 6 };
        let fr = match self.rng.below(5) {
            0 => Some(token_authority()),
            1 => Some(self.users[self.rng.usize(5)]),
            _ => None,
        };
        let ix = if tp == SPL {
            spl_token::instruction::initialize_mint2(&SPL, &mint, &auth, fr.as_ref(), d).unwrap()
        } else {
            ti::initialize_mint2(&tp, &mint, &auth, fr.as_ref(), d).unwrap()
        };
        assert!(self.raw(ix));
        if fl.hook() {
            let ix = Instruction {
                program_id: HOOK,
                accounts: vec![
                    AccountMeta::new(FEE, true),
                    AccountMeta::new(hook_metas(&mint), false),
                    AccountMeta::new_readonly(mint, false),
                    AccountMeta::new_readonly(tp, false),
                    AccountMeta::new_readonly(ATA_PROGRAM, false),
                    AccountMeta::new(hook_counter(), false),
                    AccountMeta::new_readonly(SYSTEM, false),
                ],
                data: disc("global", "initialize_extra_account_meta_list").to_vec(),
            };
            assert!(self.raw(ix), "hook setup");
        }
    }

    pub fn make_ata(&mut self, owner: Pubkey, mint: Pubkey) -> Pubkey {
        let tp = self.tp;
        let k = ata(&owner, &mint, &tp);
        if self.svm.get(&k).lamports() == 0 {
            let ix = spl_associated_token_account::instruction::create_associated_token_account(&FEE, &owner, &mint, &tp);
            assert!(self.raw(ix));
        }
        k
    }

    /// A token account of `owner` at an address that is not its associated one.
    fn make_tok(&mut self, owner: Pubkey, mint: Pubkey) -> Pubkey {
        let k = self.rng.key();
        let tmpl = ata(&self.users[0], &mint, &self.tp);
        let len = self.svm.data(&tmpl).len();
        self.svm.set(k, acct(rent_for(len), vec![0; len], self.tp));
        let ix = if self.tp == SPL {
            spl_token::instruction::initialize_account3(&SPL, &k, &mint, &owner).unwrap()
        } else {
            spl_token_2022::instruction::initialize_account3(&self.tp, &k, &mint, &owner).unwrap()
        };
        assert!(self.raw(ix));
        k
    }

    pub fn mint_to(&mut self, mint: Pubkey, to: Pubkey, auth: Pubkey, amount: u64) -> bool {
        let ix = token_ix(self.tp, spl_token::instruction::mint_to(&SPL, &mint, &to, &auth, &[], amount).unwrap());
        self.raw(ix)
    }

    fn fund_users(&mut self) {
        let u = self.users.clone();
        // how much exists: sometimes close to the maximum
        let mut left: u64 = match self.rng.below(6) {
            0 => u64::MAX - self.rng.below(1000),
            1 => self.rng.amount(),
            _ => {
                let e = self.rng.range(6, 19);
                10u64.pow(e as u32) + self.rng.below(1000)
            }
        };
        for (i, k) in u.iter().enumerate() {
            let a = self.make_ata(*k, self.mint);
            let a2 = self.make_ata(*k, self.mint2);
            self.toks.push((a, *k));
            let amt = if i == 4 { left } else { left / 2 - self.rng.below(1 + left / 4).min(left / 2) };
            left -= amt;
            if !(i == 3 && self.rng.bool()) {
                assert!(self.mint_to(self.mint, a, u[0], amt));
            }
            assert!(self.mint_to(self.mint2, a2, u[0], 1_000_000));
        }
        for i in [1usize, 2] {
            let t = self.make_tok(u[i], self.mint);
            self.toks.push((t, u[i]));
            let bal = self.bal(&ata(&u[i], &self.mint, &self.tp));
            let part = self.rng.below(bal / 2 + 1);
            self.move_tokens(ata(&u[i], &self.mint, &self.tp), t, u[i], part);
        }
    }

    pub fn bal(&self, k: &Pubkey) -> u64 {
        match parse(&self.svm.get(k)) {
            St::Tok(t) => t.amount,
            _ => 0,
        }
    }

    pub fn hook_extra(&self, src_owner: &Pubkey) -> Vec<AccountMeta> {
        vec![
            AccountMeta::new_readonly(HOOK, false),
            AccountMeta::new_readonly(hook_metas(&self.mint), false),
            AccountMeta::new_readonly(hook_dummy(src_owner), false),
            AccountMeta::new(hook_counter(), false),
        ]
    }

    /// Plain token transfer by a user; returns whether it went through.
    pub fn move_tokens(&mut self, from: Pubkey, to: Pubkey, owner: Pubkey, amount: u64) -> bool {
        let ro = |k| AccountMeta::new_readonly(k, false);
        let mut accounts = vec![AccountMeta::new(from, false), ro(self.mint), AccountMeta::new(to, false), AccountMeta::new_readonly(owner, true)];
        if self.flavor.hook() {
            accounts.extend([ro(hook_metas(&self.mint)), ro(hook_dummy(&owner)), AccountMeta::new(hook_counter(), false), ro(HOOK)]);
        }
        let mut data = vec![12];
        data.extend_from_slice(&amount.to_le_bytes());
        data.push(self.decimals);
        let ix = Instruction { program_id: self.tp, accounts, data };
        self.raw(ix)
    }

    pub fn approve(&mut self, from: Pubkey, owner: Pubkey, delegate: Pubkey, amount: u64) -> bool {
        let ix = token_ix(self.tp, spl_token::instruction::approve(&SPL, &from, &delegate, &owner, &[], amount).unwrap());
        self.raw(ix)
    }

    pub fn give_mint_authority(&mut self, to: Pubkey) {
        let ix = token_ix(
            self.tp,
            spl_token::instruction::set_authority(&SPL, &self.mint, Some(&to), spl_token::instruction::AuthorityType::MintTokens, &self.users[0], &[]).unwrap(),
        );
        assert!(self.raw(ix));
    }

    pub fn config(&self) -> Option<Config> {
        Config::parse(self.svm.data(&config()))
    }
    pub fn edit_config(&mut self, f: impl FnOnce(&mut Config)) {
        let mut c = self.config().unwrap();
        f(&mut c);
        let mut a = self.svm.get(&config());
        let n = a.data().len();
        let mut b = c.bytes();
        b.resize(n, 0);
        a.set_data_from_slice(&b);
        self.svm.set(config(), a);
    }
    pub fn owner(&self) -> Pubkey {
        self.config().map(|c| c.owner).unwrap_or(self.users[0])
    }
    pub fn signable(&self, k: &Pubkey) -> bool {
        self.signable.contains(k)
    }
    pub fn fresh(&mut self) -> Pubkey {
        let k = self.rng.key();
        self.signable.insert(k);
        k
    }
    pub fn user(&mut self) -> Pubkey {
        let i = self.rng.usize(self.users.len());
        self.users[i]
    }

    /// Run one call under the oracle and all history monitors.
    /// Anyone can send lamports to an address before an account is made there.
    fn fund_beforehand(&mut self, c: &Call) {
        let v = verdict(&self.svm, c);
        if !v.rej.is_empty() || v.either {
            return;
        }
        let new: Vec<Pubkey> = v.exp.iter().filter(|(k, s)| **s != St::None && self.svm.lamports(k) == 0).map(|(k, _)| *k).collect();
        if new.is_empty() {
            return;
        }
        let k = *self.rng.pick(&new);
        let n = match self.rng.below(5) {
            0 => 1,
            1 => 890_880,
            2 => self.rng.range(1, 3_000_000),
            3 => 50_000_000,
            _ => self.rng.range(1, 10_000),
        };
        self.svm.set(k, acct(n, vec![], SYSTEM));
        let l = format!("({n} lamports sent to {k} beforehand)");
        if self.verbose {
            println!("  {l}");
        }
        self.obs.log.push(l);
    }
    pub fn call(&mut self, mut c: Call) -> bool {
        // accounts retyped by `mutate` (possibly twice) must not come out as what the
        // call asks for there: no history leads to such an account
        let made_up = c.slots.iter().any(|s| {
            self.temp.contains(&s.key) && {
                let want: &[&str] = match s.name {
                    "config" => &["config"],
                    "peer" => &["peer", "xpeer"],
                    "transceiver" | "registered_transceiver" => &["reg"],
                    "outbox_item" => &["outbox"],
                    "inbox_item" => &["inbox"],
                    "outbox_rate_limit" | "inbox_rate_limit" | "rate_limit" => &["orl", "irl"],
                    "transceiver_message" => &["vtm"],
                    "instance" => &["inst"],
                    "registered_chain" => &["rchain"],
                    "registered_ntt" => &["rntt"],
                    "relay_request" => &["rreq"],
                    "vaa" | "wormhole_message" => &["posted"],
                    "lut" => &["lut"],
                    "lut_address" => &["table"],
                    "program_data" => &["progdata"],
                    "sequence" => &["seq"],
                    "replay" => &["replay"],
                    _ => &[],
                };
                want.contains(&parse(&self.svm.get(&s.key)).kind())
            }
        });
        if made_up {
            for k in std::mem::take(&mut self.temp) {
                self.svm.accounts.remove(&k);
            }
            return false;
        }
        // only keys with a private key can sign a transaction
        let via_signer = c.via.as_ref().filter(|(_, s)| !s.is_empty()).map(|(p, s)| {
            let r: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
            pda(p, &r).0
        });
        for s in c.slots.iter_mut() {
            if s.s && !self.signable.contains(&s.key) && Some(s.key) != via_signer {
                s.s = false;
            }
        }
        for s in c.extra.iter_mut() {
            if s.is_signer && !self.signable.contains(&s.pubkey) {
                s.is_signer = false;
            }
        }
        let more = FOCUS.with(|f| match f.borrow().as_str() {
            "C33" => 6,
            "C35" => 0,
            _ => 1,
        });
        if self.rng.chance(more, 24) {
            // a transaction may allow more than is needed
            for s in c.slots.iter_mut() {
                if s.s || !self.svm.get(&s.key).executable() && s.key != SYSTEM && self.rng.chance(1, 3) {
                    s.w = true;
                }
            }
        }
        if self.rng.chance(if FOCUS.with(|f| *f.borrow() == "C34") { 6 } else { 1 }, 36) {
            self.fund_beforehand(&c);
        }
        let st = step(&mut self.svm, &c);
        self.obs.steps += 1;
        if st.ok {
            self.obs.accepted += 1;
        } else {
            self.obs.refused += 1;
        }
        let line = || {
            format!(
                "t={} {} [{}] {} -> {} {}",
                self.svm.now(),
                c.op.label(),
                c.note,
                fmt_args(&c),
                if st.ok { "ok".into() } else { format!("refused ({})", st.err.chars().take(140).collect::<String>()) },
                st.verdict.rej.iter().map(|r| format!("<{}>", r.1)).collect::<String>()
            )
        };
        let l = line();
        if self.verbose {
            println!("  {l}");
        }
        if self.obs.log.len() > 400 {
            self.obs.log.drain(..200);
        }
        self.obs.log.push(l.clone());
        // accounting
        let mut reasons: Vec<String> = st.verdict.rej.iter().map(|r| r.1.split(" is not ").next().unwrap().to_string()).collect();
        reasons.truncate(2);
        let unj = st.verdict.either || (st.ok && !st.verdict.rej.is_empty() && st.violations.is_empty());
        if !unj {
            let what = if st.verdict.rej.is_empty() { st.verdict.class.to_string() } else { format!("must fail: {}", reasons.join(" & ")) };
            let ctx = self.context(&c);
            let mut props: BTreeSet<&'static str> = BTreeSet::new();
            if st.verdict.rej.is_empty() {
                props.extend(op_props(&c.op));
                props.extend(st.verdict.valid.iter());
                props.insert("C35");
                if st.verdict.fee_or_hook {
                    props.insert("C25");
                }
                if st.ok {
                    props.insert("C33");
                }
                let early = st.verdict.exp.keys().any(|k| st.pre.get(k).map(|a| a.lamports() > 0 && *a.owner() == SYSTEM && a.data().is_empty()).unwrap_or(false));
                if early {
                    self.obs.saw("C34", format!("{}|funded beforehand|{what}|{ctx}", c.op.label()), || l.clone());
                }
                if open_to_all(&c.op) {
                    props.insert("C34");
                }
            } else {
                for (t, _) in &st.verdict.rej {
                    props.extend(t.iter());
                }
            }
            for p in props {
                self.obs.saw(p, format!("{}|{what}|{ctx}|{}", c.op.label(), c.note), || l.clone());
            }
        }
        for v in &st.violations {
            if self.verbose {
                println!("  !! {:?} {}", v.tags, v.what);
            }
        }
        for v in &st.violations {
            self.obs.add(v.clone());
        }
        let ok = st.ok;
        hist_step(self, &c, &st);
        for k in std::mem::take(&mut self.temp) {
            self.svm.accounts.remove(&k);
        }
        ok
    }

    /// The two questions the programs answer about themselves.
    pub fn ask(&mut self) {
        for (prog, name, want) in [(NTT, "version", "3.0.0"), (XCVR, "transceiver_type", "wormhole")] {
            // (built for CPI, `version` takes a dummy account)
            let accounts = vec![AccountMeta::new_readonly(self.user(), false)];
            let ix = Instruction { program_id: prog, accounts, data: disc("global", name).to_vec() };
            let got = self.svm.execute(&FEE, &[ix]);
            let said = got.as_ref().ok().and_then(|t| t.ret.as_ref()).filter(|r| r.0 == prog).map(|r| r.1.clone());
            let mut exp = (want.len() as u32).to_le_bytes().to_vec();
            exp.extend_from_slice(want.as_bytes());
            let l = format!("{name} -> {said:?}");
            if said != Some(exp) {
                self.obs.add(Violation { tags: vec!["C35"], what: format!("{name} answered {said:?}, not {want:?} ({:?})", got.err()) });
            }
            self.obs.saw("C35", format!("{name}|answers"), || l.clone());
            self.obs.log.push(l);
        }
    }

    /// coarse configuration context for coverage signatures
    fn context(&self, c: &Call) -> String {
        match c.op {
            Op::Transfer { .. } | Op::ReleaseIn { .. } => format!("{:?}/m{}", fl_name(&self.flavor), self.mode),
            Op::Redeem => {
                let cfg = self.config();
                cfg.map(|c| format!("thr{}of{}", c.threshold.min(4), c.enabled.count_ones().min(4))).unwrap_or_default()
            }
            _ => String::new(),
        }
    }

    pub fn deploy(&mut self) {
        // everything through the real instructions, under the oracle
        if self.mode == 1 {
            self.give_mint_authority(token_authority());
        }
        if self.rng.chance(1, 3) {
            let m = self.mint;
            self.make_ata(token_authority(), m);
        }
        let u = self.users.clone();
        let limit = self.limit_value();
        let mut c = initialize(u[1], u[0], self.mint, self.tp, self.chain, limit, self.mode);
        c.note = "setup".into();
        assert!(self.call(c) || !self.obs.violations.is_empty(), "initialize failed");
        if self.config().is_none() {
            return;
        }
        self.hist.start(&self.svm, &self.mint, &self.config().unwrap().custody);
        if self.rng.chance(1, 4) {
            // transceivers with high ids (many registered before)
            let id = self.rng.range(1, 123) as u8;
            self.edit_config(|c| c.next_id = id);
        }
        let n = self.rng.range(1, 4);
        let mut xs: Vec<Pubkey> = vec![NTT, XCVR];
        xs.extend(self.ext.iter());
        for i in (1..xs.len()).rev() {
            let j = self.rng.usize(i + 1);
            xs.swap(i, j);
        }
        if self.rng.chance(3, 4) {
            xs.retain(|x| *x != NTT);
            xs.insert(self.rng.usize(2), NTT);
        }
        for x in xs.into_iter().take(n as usize) {
            self.setup(register(u[0], u[2], x));
        }
        for ch in self.chains.clone() {
            self.new_peer(ch, u[0]);
        }
        let thr = self.rng.range(1, n) as u8;
        if thr > 1 && self.rng.chance(2, 3) && self.config().is_some() {
            self.edit_config(|c| c.threshold = thr);
        }
    }
    fn setup(&mut self, mut c: Call) -> bool {
        c.note = "setup".into();
        self.call(c)
    }
    fn new_peer(&mut self, ch: u16, owner: Pubkey) {
        // deterministic deployments have the same address on many chains
        let share = self.rng.chance(2, 5) && ch != self.chains[0];
        let addr = match parse(&self.svm.get(&peer(self.chains[0]).0)) {
            St::Peer { addr, .. } if share => addr,
            _ => self.rng.addr(),
        };
        let limit = self.limit_value();
        let dec = self.peer_decimals();
        self.setup(set_peer(owner, owner, ch, addr, limit, dec));
        for x in [NTT, XCVR] {
            let a = match parse(&self.svm.get(&xpeer(&x, self.chains[0]).0)) {
                St::XPeer { addr, .. } if share => addr,
                _ => self.rng.addr(),
            };
            self.setup(set_xpeer(x, owner, owner, ch, a));
        }
    }
    pub fn peer_decimals(&mut self) -> u8 {
        if self.rng.chance(1, 4) { self.rng.range(0, 30) as u8 } else { *self.rng.pick(&[0u8, 1, 3, 6, 7, 8, 8, 9, 18, 18, 24, 77, 255]) }
    }
    pub fn limit_value(&mut self) -> u64 {
        let supply = match parse(&self.svm.get(&self.mint)) {
            St::Mint(m) => m.supply,
            _ => 1000,
        };
        match self.rng.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => self.rng.amount(),
            3 => supply,
            _ => {
                let s = supply >> self.rng.below(10);
                self.rng.below(s.max(1)) + 1
            }
        }
    }

    // ------------------------------------------------------------ mutation

    /// Replace one account (or its signature) by something hostile.
    pub fn mutate(&mut self, c: &mut Call) {
        let n = c.slots.len();
        let mut i = self.rng.usize(n);
        if FOCUS.with(|f| *f.borrow() == "C32") && self.rng.bool() {
            // the accounts that belong to one chain
            let v: Vec<usize> = (0..n).filter(|j| c.slots[*j].name.contains("peer") || c.slots[*j].name.contains("rate_limit")).collect();
            if !v.is_empty() {
                i = *self.rng.pick(&v);
            }
        }
        let cur = c.slots[i].key;
        let name = c.slots[i].name;
        let kind = parse(&self.svm.get(&cur)).kind();
        let typed = { let a = self.svm.get(&cur); *a.owner() != SYSTEM && !a.executable() && a.data().len() > 12 };
        let how = match self.rng.below(13) {
            12 if typed && kind != "tok" && kind != "mint" => {
                // the same bytes under the same program, but as another type of account
                let mut a = self.svm.get(&cur);
                let mut d = a.data().to_vec();
                let other: Vec<Vec<u8>> = self.svm.accounts.values().filter(|x| x.owner() == a.owner() && x.data().len() > 8 && x.data()[..8] != d[..8]).map(|x| x.data()[..8].to_vec()).collect();
                match self.rng.below(4) {
                    0 | 1 if !other.is_empty() => d[..8].copy_from_slice(self.rng.pick(&other).as_slice()),
                    2 => d[..8].copy_from_slice(&[0; 8]),
                    _ => {
                        let j = self.rng.usize(8);
                        d[j] ^= 1 << self.rng.below(8);
                    }
                }
                a.set_data_from_slice(&d);
                let k = self.fresh();
                self.svm.set(k, a);
                self.temp.push(k);
                c.slots[i].key = k;
                "another type"
            }
            0..=4 => {
                // another existing account of the same kind
                let exe = self.svm.get(&cur).executable();
                let v: Vec<Pubkey> = self.svm.accounts.iter().filter(|(k, a)| **k != cur && !a.executable() && parse(a).kind() == kind && !self.temp.contains(k)).map(|(k, _)| *k).collect();
                if exe {
                    let v: Vec<Pubkey> = self.svm.accounts.iter().filter(|(k, a)| **k != cur && a.executable()).map(|(k, _)| *k).collect();
                    c.slots[i].key = if self.rng.bool() { *self.rng.pick(&[SPL, SPL22]) } else { *self.rng.pick(&v) };
                    "another program"
                } else if kind != "none" && !v.is_empty() {
                    c.slots[i].key = *self.rng.pick(&v);
                    "same kind"
                } else if !self.spare.is_empty() && (name.contains("peer") || name.contains("inbox_rate")) {
                    c.slots[i].key = peer(self.spare[0]).0;
                    "vacant"
                } else {
                    c.slots[i].key = self.fresh();
                    "fresh key"
                }
            }
            5 | 6 | 7 => {
                // a forged copy, owned by a hostile program
                let mut a = self.svm.get(&cur);
                if a.lamports() == 0 {
                    a = acct(rent_for(8), vec![0; 8], SYSTEM);
                }
                a.set_owner(self.evil);
                a.set_executable(false);
                let k = self.fresh();
                // the forgery may also lie about its content
                if self.rng.bool() && a.data().len() > 12 {
                    let mut d = a.data().to_vec();
                    let p = 8 + self.rng.usize(d.len() - 8);
                    d[p] ^= 1 << self.rng.below(8);
                    a.set_data_from_slice(&d);
                }
                self.svm.set(k, a);
                c.slots[i].key = k;
                "forged copy"
            }
            8 => {
                c.slots[i].key = self.fresh();
                "fresh key"
            }
            9 => {
                c.slots[i].key = self.user();
                "user key"
            }
            10 => {
                let j = self.rng.usize(n);
                c.slots[i].key = c.slots[j].key;
                "aliased"
            }
            _ => {
                let s: Vec<usize> = (0..n).filter(|j| c.slots[*j].s).collect();
                if s.is_empty() {
                    c.slots[i].key = self.fresh();
                    "fresh key"
                } else {
                    let j = *self.rng.pick(&s);
                    c.slots[j].s = false;
                    c.note = format!("unsigned:{}", c.slots[j].name);
                    return;
                }
            }
        };
        c.note = format!("{how}:{name}");
    }

    pub fn go(&mut self, mut c: Call, mutp: u64) -> bool {
        if !matches!(c.op, Op::Gov) && c.via.is_none() {
            // the order of additional accounts, and further ones, do not matter
            if c.extra.len() > 1 && self.rng.chance(1, 4) {
                let n = c.extra.len();
                let (i, j) = (self.rng.usize(n), self.rng.usize(n));
                c.extra.swap(i, j);
            }
            if self.rng.chance(1, 20) {
                for _ in 0..if self.rng.bool() { 1 } else { self.rng.range(2, 7) } {
                    let k = if self.rng.bool() { self.user() } else { self.rng.key() };
                    let i = self.rng.usize(c.extra.len() + 1);
                    c.extra.insert(i, AccountMeta::new_readonly(k, false));
                }
            }
        }
        if self.rng.chance(mutp, 100) {
            self.mutate(&mut c);
            if self.rng.chance(1, 8) {
                self.mutate(&mut c);
            }
        }
        if c.via.is_none() && self.rng.chance(1, FOCUS.with(|f| if matches!(f.borrow().as_str(), "C34" | "C35") { 12 } else { 40 })) {
            // called by another program on the signers' behalf
            c.via = Some((self.evil, vec![]));
            c.note = format!("{} (by a program)", c.note);
        }
        self.call(c)
    }

    // ------------------------------------------------------------ intents

    pub fn pick_amount(&mut self, bal: u64, cap: u64, f: u64) -> u64 {
        let small = |r: &mut Rng| r.below(3 * f.min(1 << 40)).wrapping_sub(f.min(1 << 40));
        match self.rng.below(13) {
            0 => cap,
            1 => cap.wrapping_add(1),
            2 => cap.wrapping_sub(1),
            3 => cap.wrapping_add(small(&mut self.rng)),
            4 => bal,
            5 => bal.wrapping_add(1),
            6 => bal.wrapping_add(small(&mut self.rng)),
            7 => self.rng.amount(),
            8 => 0,
            9 => self.rng.below(f.saturating_mul(5).max(2)),
            _ => {
                let s = bal >> self.rng.below(12);
                self.rng.below(s.max(1)) + self.rng.below(3)
            }
        }
    }

    pub fn transfer_intent(&mut self, mutp: u64) -> bool {
        let Some(cfg) = self.config() else { return false };
        let (from, owner) = *self.rng.pick(&self.toks);
        let chain = if self.rng.chance(1, 25) && !self.spare.is_empty() { *self.rng.pick(&self.spare) } else { *self.rng.pick(&self.chains) };
        let pdec = match parse(&self.svm.get(&peer(chain).0)) {
            St::Peer { decimals, .. } => decimals,
            _ => 8,
        };
        let td = pdec.min(self.decimals).min(8);
        let f = pow10((self.decimals - td) as u32).and_then(|x| u64::try_from(x).ok()).unwrap_or(u64::MAX);
        let cap = match parse(&self.svm.get(&outbox_rl())) {
            St::Orl(r) => r.at(self.svm.now()),
            _ => 0,
        };
        let bal = self.bal(&from);
        let to = if self.rng.chance(1, 8) { self.user().to_bytes() } else { self.rng.addr() };
        let mut a = TArgs { amount: self.pick_amount(bal, cap, f), chain, to, queue: self.rng.chance(3, 5) };
        let payer = self.user();
        let mut note = "plain";
        // approvals
        match self.rng.below(14) {
            0 => {
                // an approval for different arguments
                let mut b = a.clone();
                match self.rng.below(4) {
                    0 => {
                        b.amount = b.amount.wrapping_add(1);
                        note = "approved other amount"
                    }
                    1 => {
                        b.chain = *self.rng.pick(&[b.chain.swap_bytes(), b.chain ^ 1, b.chain ^ 0x100]);
                        note = "approved other chain"
                    }
                    2 => {
                        b.to[self.rng.usize(32)] ^= 1;
                        note = "approved other recipient"
                    }
                    _ => {
                        b.queue = !b.queue;
                        note = "approved other flag"
                    }
                }
                self.approve(from, owner, session(&owner, &b.digest()), u64::MAX);
            }
            1 => {
                // reuse of an older approval, possibly already spent
                if let Some((f2, b)) = (!self.approvals.is_empty()).then(|| self.rng.pick(&self.approvals).clone()) {
                    let o = self.toks.iter().find(|t| t.0 == f2).map(|t| t.1).unwrap_or(owner);
                    let item = self.fresh();
                    let mut c = self.transfer_call(b, payer, f2, o, item, cfg.custody);
                    c.note = "reused approval".into();
                    return self.go(c, mutp / 3);
                }
            }
            2 => {
                note = "no approval";
            }
            3 => {
                let less = a.amount.saturating_sub(1 + self.rng.below(f.min(u64::MAX - 1)));
                self.approve(from, owner, session(&owner, &a.digest()), less);
                note = "partial approval";
            }
            4 => {
                // approval by another user for these very arguments
                let o2 = self.user();
                self.approve(from, owner, session(&o2, &a.digest()), u64::MAX);
                note = "session of another owner";
                let item = self.fresh();
                let mut c = self.transfer_call(a, payer, from, o2, item, cfg.custody);
                c.note = note.into();
                return self.go(c, 0);
            }
            5 => {
                self.approve(from, owner, session(&owner, &a.digest()), u64::MAX);
                note = "large approval";
            }
            6 => {
                // the owner approves the manager's authority instead
                self.approve(from, owner, token_authority(), u64::MAX);
                note = "approved token authority";
            }
            _ => {
                self.approve(from, owner, session(&owner, &a.digest()), a.amount);
            }
        }
        self.approvals.push((from, a.clone()));
        if self.approvals.len() > 30 {
            self.approvals.remove(0);
        }
        if note == "plain" && self.rng.chance(1, 20) {
            // argument tampering by the submitter
            match self.rng.below(4) {
                0 => a.amount = a.amount.wrapping_add(f),
                1 => a.to[5] ^= 4,
                2 => a.queue = !a.queue,
                _ => a.chain = *self.rng.pick(&self.chains),
            }
            note = "tampered arguments";
        }
        let item = if self.rng.chance(1, 15) && !self.items.is_empty() { *self.rng.pick(&self.items) } else { self.fresh() };
        if self.rng.chance(1, 20) {
            // anyone can send lamports to the new account's address
            let l = *self.rng.pick(&[1u64, 1_000_000, 10_000_000]);
            if self.svm.lamports(&item) == 0 {
                self.svm.set(item, acct(l, vec![], SYSTEM));
            }
        }
        let mut c = self.transfer_call(a, payer, from, owner, item, cfg.custody);
        c.note = note.into();
        if self.rng.chance(1, 30) {
            c = self.other_mode_transfer(c);
        }
        self.go(c, mutp)
    }

    pub fn transfer_call(&mut self, a: TArgs, payer: Pubkey, from: Pubkey, owner: Pubkey, item: Pubkey, custody: Pubkey) -> Call {
        let mut c = transfer(self.mode == 1, a, payer, self.mint, from, owner, self.tp, item, custody);
        if self.flavor.hook() {
            c.extra = self.hook_extra(&owner);
            if self.rng.chance(1, 40) {
                c.extra.pop();
            }
        }
        c
    }
    fn other_mode_transfer(&mut self, mut c: Call) -> Call {
        if let Op::Transfer { burn, a } = c.op.clone() {
            c.op = Op::Transfer { burn: !burn, a };
            if burn {
                c.slots.pop();
            } else {
                c.slots.push(Slot { name: "token_authority", key: token_authority(), s: false, w: false });
            }
            c.note = "other mode".into();
        }
        c
    }

    /// A genuine message of a registered remote manager.
    pub fn genuine(&mut self) -> Option<InMsg> {
        let from = *self.rng.pick(&self.chains);
        let src = match parse(&self.svm.get(&peer(from).0)) {
            St::Peer { addr, .. } => addr,
            _ => return None,
        };
        let cap = match parse(&self.svm.get(&inbox_rl(from).0)) {
            St::Irl { rate, .. } => rate.at(self.svm.now()),
            _ => 0,
        };
        let cust = self.config().map(|c| self.bal(&c.custody)).unwrap_or(0);
        let decimals = if self.rng.chance(3, 4) { self.decimals.min(8) } else if self.rng.bool() { self.rng.range(0, 20) as u8 } else { *self.rng.pick(&[0u8, 2, 6, 7, 8, 9, 18, 27, 28, 77, 255]) };
        let local = self.pick_amount(if self.mode == 0 { cust } else { cap }, cap, 1);
        let amount = scale(local, self.decimals, decimals).unwrap_or(local);
        let to = if self.rng.chance(1, 40) { token_authority().to_bytes() } else if self.rng.chance(1, 40) { [0; 32] } else if self.rng.chance(1, 20) { self.rng.addr() } else { self.user().to_bytes() };
        let id = self.rng.addr();
        Some(InMsg {
            from,
            src,
            rcpt: NTT.to_bytes(),
            msg: Msg { id, sender: self.rng.addr(), amount, decimals, token: self.rng.addr(), to, to_chain: self.chain },
        })
    }

    /// Post a (possibly forged) message and offer it to a Wormhole transceiver.
    pub fn receive_intent(&mut self, mutp: u64) -> bool {
        let x = if self.rng.chance(2, 3) { NTT } else { XCVR };
        if self.rng.chance(1, 6) && !self.vaas.is_empty() {
            // offer an old message again (to any transceiver)
            let (vk, x0, ch, id, m) = self.rng.pick(&self.vaas).clone();
            let x = if self.rng.bool() { x0 } else { x };
            let payer = self.user();
            let mut c = receive(x, payer, vk, ch, &id);
            c.note = "again".into();
            let ok = self.go(c, mutp);
            if ok {
                self.delivered.push(Delivered { x, vtm: xmsg(&x, ch, &id), m });
            }
            return ok;
        }
        let mut m = if self.rng.chance(1, 3) && !self.delivered.is_empty() {
            // the same message through another transceiver
            self.rng.pick(&self.delivered).m.clone()
        } else {
            match self.genuine() {
                Some(m) => m,
                None => return false,
            }
        };
        let mut note = "genuine";
        match self.rng.below(24) {
            0 => {
                m.msg.to_chain = *self.rng.pick(&[self.chain ^ 1, self.chain.swap_bytes(), self.chains[0], 0]);
                note = "to another chain"
            }
            1 => {
                m.rcpt = *self.rng.pick(&[XCVR.to_bytes(), [0; 32], [7; 32]]);
                note = "to another manager"
            }
            2 => {
                m.src = self.rng.bytes32();
                note = "from another manager"
            }
            3 if !self.delivered.is_empty() => {
                // same id, different content
                m.msg.id = self.rng.pick(&self.delivered).m.msg.id;
                note = "id reused"
            }
            4 if !self.delivered.is_empty() => {
                // a known message with one field changed
                m = self.rng.pick(&self.delivered).m.clone();
                match self.rng.below(6) {
                    0 => m.msg.amount ^= 1,
                    1 => m.msg.to = self.user().to_bytes(),
                    2 => m.msg.sender[0] ^= 1,
                    3 => m.msg.token[0] ^= 1,
                    4 => m.msg.decimals = m.msg.decimals.wrapping_add(1),
                    _ => m.from = *self.rng.pick(&self.chains),
                }
                if let St::Peer { addr, .. } = parse(&self.svm.get(&peer(m.from).0)) {
                    m.src = addr;
                }
                note = "one field changed"
            }
            _ => {}
        }
        let mut em = match parse(&self.svm.get(&xpeer(&x, m.from).0)) {
            St::XPeer { addr, .. } => addr,
            _ => [3; 32],
        };
        let extra_payload: Vec<u8> = if self.rng.chance(1, 10) { (0..self.rng.below(40)).map(|i| i as u8).collect() } else { vec![] };
        let mut payload = m.msg.transceiver_wire(&m.src, &m.rcpt, &extra_payload);
        let mut echain = m.from;
        let mut magic = *b"vaa";
        let mut powner = CORE_BRIDGE;
        match self.rng.below(30) {
            0 => {
                em = self.rng.bytes32();
                note = "stranger's emitter"
            }
            1 => {
                // the other transceiver's peer
                let y = if x == NTT { XCVR } else { NTT };
                if let St::XPeer { addr, .. } = parse(&self.svm.get(&xpeer(&y, m.from).0)) {
                    em = addr;
                }
                note = "other transceiver's emitter"
            }
            2 => {
                // peer address of another chain
                let o = *self.rng.pick(&self.chains);
                if let St::XPeer { addr, .. } = parse(&self.svm.get(&xpeer(&x, o).0)) {
                    em = addr;
                }
                note = "other chain's emitter"
            }
            3 => {
                em[self.rng.usize(32)] ^= 1 << self.rng.below(8);
                note = "emitter differs in one bit"
            }
            4 => {
                magic = *b"msg";
                note = "unverified message"
            }
            5 => {
                powner = self.evil;
                note = "forged account"
            }
            6 => {
                let n = self.rng.usize(payload.len());
                payload.truncate(n);
                note = "truncated"
            }
            7 => {
                let n = self.rng.usize(4);
                payload[n] ^= 1;
                note = "wrong prefix"
            }
            8 => {
                payload.push(0);
                note = "trailing byte"
            }
            9 => {
                let n = self.rng.usize(payload.len());
                payload[n] ^= 1 << self.rng.below(8);
                note = "bit flip"
            }
            10 => {
                em = m.src;
                note = "manager's address as emitter"
            }
            11 => {
                echain = *self.rng.pick(&[echain.swap_bytes(), echain ^ 1, self.chains[0]]);
                note = "emitter chain changed"
            }
            12 => {
                magic = *b"msu";
                note = "unreliable message"
            }
            _ => {}
        }
        let m = InMsg { from: echain, ..m };
        let vk = self.rng.key();
        self.seq += 1;
        let mut p = Posted::vaa(echain, em, self.seq, payload.clone());
        p.magic = magic;
        p.time = self.rng.u64() as u32;
        p.nonce = self.rng.u64() as u32;
        p.consistency = self.rng.u64() as u8;
        let b = p.bytes();
        self.svm.set(vk, acct(rent_for(b.len()), b, powner));
        // what the message says its id is
        let id = if payload.len() >= 102 { payload[70..102].try_into().unwrap() } else { m.msg.id };
        let payer = self.user();
        let tm = xmsg(&x, echain, &id);
        if self.rng.chance(1, 20) && self.svm.lamports(&tm) == 0 {
            self.svm.set(tm, acct(5, vec![], SYSTEM));
        }
        let mut c = receive(x, payer, vk, echain, &id);
        c.note = note.into();
        self.vaas.push((vk, x, echain, id, m.clone()));
        if self.vaas.len() > 60 {
            self.vaas.remove(0);
        }
        let ok = self.go(c, mutp);
        if ok {
            let real = match parse(&self.svm.get(&xmsg(&x, echain, &id))) {
                St::Vtm { v, .. } => InMsg { from: v.from_chain, src: v.src_mgr, rcpt: v.rcpt_mgr, msg: v.msg },
                _ => m,
            };
            self.delivered.push(Delivered { x, vtm: xmsg(&x, echain, &id), m: real });
        }
        ok
    }

    /// An external transceiver program attests to a message on its own terms.
    pub fn external_attest(&mut self) {
        let x = if self.rng.chance(1, 6) { self.evil } else { *self.rng.pick(&self.ext) };
        let mut m = if self.rng.chance(3, 5) && !self.delivered.is_empty() {
            self.rng.pick(&self.delivered).m.clone()
        } else {
            match self.genuine() {
                Some(m) => m,
                None => return,
            }
        };
        match self.rng.below(20) {
            0 => m.msg.to_chain ^= 1,
            1 => m.rcpt[0] ^= 1,
            2 => m.src[31] ^= 1,
            3 => m.msg.amount ^= 1,
            4 => m.from = *self.rng.pick(&self.chains),
            5 => m.msg.to = self.user().to_bytes(),
            6 => m.from = m.from.swap_bytes(),
            7 => m.rcpt = m.src,
            _ => {}
        }
        let k = self.rng.key();
        let mut b = Vtm { from_chain: m.from, src_mgr: m.src, rcpt_mgr: m.rcpt, msg: m.msg.clone() }.bytes();
        match self.rng.below(40) {
            0 | 1 => b[self.rng.usize(8)] ^= 1 << self.rng.below(8),
            2 => {
                // an account of another type
                let d = *self.rng.pick(&["OutboxItem", "InboxItem", "Config", "BridgeMessage", "ValidatedTransceiverMessages"]);
                b[..8].copy_from_slice(&disc("account", d));
            }
            3 => b.truncate(self.rng.usize(b.len())),
            _ => {}
        }
        self.svm.set(k, acct(rent_for(b.len()), b, x));
        self.delivered.push(Delivered { x, vtm: k, m });
    }

    /// The slot a transceiver was registered under.
    pub fn reg_id(&self, x: &Pubkey) -> Option<u8> {
        match parse(&self.svm.get(&registered(x).0)) {
            St::Reg { id, .. } => Some(id),
            _ => None,
        }
    }

    pub fn redeem_intent(&mut self, mutp: u64) -> bool {
        if self.delivered.is_empty() {
            return false;
        }
        let n = self.delivered.len();
        let i = if self.rng.chance(2, 3) { n - 1 - self.rng.usize(n.min(3)) } else { self.rng.usize(n) };
        let mut d = self.delivered[i].clone();
        if self.rng.bool() {
            // one whose vote still counts
            let en = self.config().map_or(0, |c| c.enabled);
            let useful: Vec<usize> = (0..n)
                .filter(|i| {
                    let d = &self.delivered[*i];
                    let Some(id) = self.reg_id(&d.x) else { return false };
                    let bit = 1u128 << (id & 127);
                    en & bit != 0 && Inbox::parse(self.svm.data(&d.m.msg.inbox(d.m.from).0)).map_or(true, |b| b.votes & bit == 0)
                })
                .collect();
            if !useful.is_empty() {
                d = self.delivered[*self.rng.pick(&useful)].clone();
            }
        }
        let mut x = d.x;
        let mut note = "own";
        if self.rng.chance(1, 12) {
            x = *self.rng.pick(&[NTT, XCVR, self.ext[0], self.ext[1], self.ext[2]]);
            note = "another transceiver's registration";
        }
        let inbox = d.m.msg.inbox(d.m.from).0;
        let payer = self.user();
        let mut c = redeem(payer, d.m.from, d.vtm, &x, self.mint, inbox);
        c.note = note.into();
        if self.rng.chance(1, 20) && self.svm.lamports(&inbox) == 0 {
            self.svm.set(inbox, acct(3_000_000, vec![], SYSTEM));
        }
        let ok = self.go(c, mutp);
        if ok && !self.inboxes.contains(&inbox) {
            self.inboxes.push(inbox);
        }
        ok
    }

    pub fn release_in_intent(&mut self, mutp: u64) -> bool {
        if self.inboxes.is_empty() {
            return false;
        }
        let n = self.inboxes.len();
        let i = if self.rng.chance(2, 3) { n - 1 - self.rng.usize(n.min(4)) } else { self.rng.usize(n) };
        let mut ik = self.inboxes[i];
        if self.rng.bool() {
            let open: Vec<Pubkey> = self.inboxes.iter().copied().filter(|k| Inbox::parse(self.svm.data(k)).map_or(false, |b| b.status != Status::Released)).collect();
            if !open.is_empty() {
                ik = *self.rng.pick(&open);
            }
        }
        let Some(it) = Inbox::parse(self.svm.data(&ik)) else { return false };
        let Some(cfg) = self.config() else { return false };
        let rec = ata(&it.recipient, &self.mint, &self.tp);
        if self.svm.lamports(&rec) == 0 && self.rng.chance(3, 4) {
            let m = self.mint;
            self.make_ata(it.recipient, m);
        }
        let payer = self.user();
        let mut c = release_in(self.mode == 1, self.rng.bool(), payer, ik, rec, self.mint, self.tp, cfg.custody);
        c.note = "plain".into();
        if self.flavor.hook() {
            c.extra = self.hook_extra(&token_authority());
            if self.rng.chance(1, 40) {
                c.extra.remove(0);
                c.note = "hook account missing".into();
            }
        }
        if self.rng.chance(1, 25) {
            c.op = Op::ReleaseIn { mint: self.mode != 1, revert: self.rng.bool() };
            c.note = "other mode".into();
        } else if self.rng.chance(1, 12) {
            // someone else's account, or a non-associated one of the recipient
            let own: Vec<Pubkey> = self.toks.iter().filter(|t| t.1 == it.recipient && t.0 != rec).map(|t| t.0).collect();
            let k = if !own.is_empty() && self.rng.bool() { own[0] } else { self.rng.pick(&self.toks).0 };
            c = c.with("recipient", k);
            c.note = "other token account".into();
        }
        self.go(c, mutp)
    }

    pub fn release_out_intent(&mut self, mutp: u64) -> bool {
        let Some(mut item) = self.pick_item() else { return false };
        let mut prog = if self.rng.chance(2, 3) { NTT } else { XCVR };
        if self.rng.chance(3, 4) && self.svm.get(&registered(&prog).0).lamports() == 0 {
            prog = if prog == NTT { XCVR } else { NTT };
        }
        if self.rng.bool() {
            // one this transceiver has not published
            if let Some(id) = self.reg_id(&prog) {
                let open: Vec<Pubkey> = self.items.iter().copied().filter(|k| Outbox::parse(self.svm.data(k)).map_or(false, |o| o.released >> (id & 127) & 1 == 0)).collect();
                if !open.is_empty() {
                    item = *self.rng.pick(&open);
                }
            }
        }
        let payer = self.user();
        let mut c = release_out(prog, self.rng.bool(), payer, item);
        c.note = "plain".into();
        if self.rng.chance(1, 15) {
            let o = *self.rng.pick(&[NTT, XCVR, self.ext[0], self.ext[1]]);
            c = c.with("transceiver", registered(&o).0);
            c.note = "another registration".into();
        }
        self.go(c, mutp)
    }
    pub fn pick_item(&mut self) -> Option<Pubkey> {
        if self.items.is_empty() {
            return None;
        }
        let n = self.items.len();
        if self.rng.chance(1, 3) {
            // one that is not due yet
            let now = self.svm.now();
            let v: Vec<Pubkey> = self.items.iter().filter(|k| matches!(parse(&self.svm.get(k)), St::Outbox(o) if o.release > now)).copied().collect();
            if !v.is_empty() {
                return Some(*self.rng.pick(&v));
            }
        }
        Some(if self.rng.chance(1, 2) { self.items[n - 1 - self.rng.usize(n.min(3))] } else { *self.rng.pick(&self.items) })
    }
    pub fn mark_intent(&mut self, mutp: u64) -> bool {
        let Some(item) = self.pick_item() else { return false };
        let x = *self.rng.pick(&self.ext);
        let mut c = mark(x, item);
        c.note = "own".into();
        match self.rng.below(12) {
            0 => {
                // a hostile program signs with its own authority
                c = mark(self.evil, item).with("transceiver", registered(&x).0);
                c.note = "hostile program".into();
            }
            1 => {
                // direct, unsigned
                c.via = None;
                c.slot("signer").s = false;
                c.note = "unsigned".into();
            }
            2 => {
                // direct, signed by a user
                let u = self.user();
                c.via = None;
                c = c.with("signer", u);
                c.note = "signed by a user".into();
            }
            3 => {
                // right program, wrong authority
                c.via = Some((x, vec![b"other_signer".to_vec()]));
                c.slot("signer").key = pda(&x, &[b"other_signer"]).0;
                c.note = "wrong authority of the program".into();
            }
            4 => {
                let o = *self.rng.pick(&[NTT, XCVR, self.ext[0], self.ext[1], self.ext[2]]);
                c = c.with("transceiver", registered(&o).0);
                c.note = "another registration".into();
            }
            5 => {
                c.via = Some((x, vec![]));
                c.slot("signer").s = false;
                c.note = "authority did not sign".into();
            }
            _ => {}
        }
        if c.via.is_some() {
            // keep mutated keys signable only where they really are
            if self.rng.chance(mutp, 200) {
                let k = if self.rng.bool() { self.fake_outbox(self.evil) } else { self.fresh() };
                c = c.with(*self.rng.pick(&["outbox_item", "config", "transceiver"]), k);
                c.note = "substituted".into();
            }
            return self.call(c);
        }
        self.go(c, mutp / 2)
    }
    /// An account that looks like an outbound item but belongs to another program.
    pub fn fake_outbox(&mut self, owner: Pubkey) -> Pubkey {
        let k = self.rng.key();
        let o = Outbox {
            amount: self.rng.amount(),
            decimals: 8,
            sender: self.user(),
            chain: *self.rng.pick(&self.chains),
            manager: [1; 32],
            to: [2; 32],
            release: self.svm.now() - 5,
            released: if self.rng.bool() { u128::MAX } else { 0 },
        };
        let b = o.bytes();
        self.svm.set(k, acct(rent_for(b.len()), b, owner));
        k
    }

    pub fn who(&mut self) -> Pubkey {
        // mostly the owner
        let o = self.owner();
        if self.rng.chance(5, 6) {
            o
        } else {
            self.user()
        }
    }
    fn any_chain(&mut self) -> u16 {
        if self.rng.chance(1, 4) && !self.spare.is_empty() {
            *self.rng.pick(&self.spare)
        } else {
            *self.rng.pick(&self.chains)
        }
    }
    pub fn noted(&self, mut c: Call, who: Pubkey) -> Call {
        c.note = if who == self.owner() { "owner" } else { "stranger" }.into();
        c
    }

    pub fn admin_intent(&mut self, which: usize, mutp: u64) -> bool {
        let who = self.who();
        let payer = self.user();
        let Some(cfg) = self.config() else { return false };
        let now = self.svm.now();
        let c = match which {
            0 => {
                let ch = self.any_chain();
                let addr = if self.rng.chance(1, 4) { NTT.to_bytes() } else { self.rng.addr() };
                let (l, d) = (self.limit_value(), self.peer_decimals());
                set_peer(who, payer, ch, addr, l, d)
            }
            1 => {
                let l = match parse(&self.svm.get(&outbox_rl())) {
                    St::Orl(r) if self.rng.chance(1, 2) => {
                        let c = r.at(now);
                        *self.rng.pick(&[r.limit.wrapping_add(1), r.limit.wrapping_sub(1), c, r.limit - c.min(r.limit), r.limit / 2, r.limit.saturating_mul(2)])
                    }
                    _ => self.limit_value(),
                };
                set_out(who, l)
            }
            2 => {
                let ch = self.any_chain();
                let l = match parse(&self.svm.get(&inbox_rl(ch).0)) {
                    St::Irl { rate: r, .. } if self.rng.chance(1, 2) => {
                        let c = r.at(now);
                        *self.rng.pick(&[r.limit.wrapping_add(1), r.limit.wrapping_sub(1), c, r.limit - c.min(r.limit), r.limit / 2, r.limit.saturating_mul(2)])
                    }
                    _ => self.limit_value(),
                };
                set_in(who, l, ch)
            }
            3 => {
                let p = if cfg.paused { self.rng.chance(1, 8) } else { self.rng.chance(7, 8) };
                pause(who, p)
            }
            4 => {
                let x = match self.rng.below(6) {
                    0 => self.user(),
                    1 => XCVR,
                    2 => NTT,
                    3 => *self.rng.pick(&self.ext),
                    _ => {
                        let k = self.rng.key();
                        self.svm.deploy(k, None);
                        k
                    }
                };
                register(who, payer, x)
            }
            5 => {
                let ch = self.any_chain();
                let x = if self.rng.bool() { NTT } else { XCVR };
                let a = self.rng.addr();
                set_xpeer(x, who, payer, ch, a)
            }
            6 | 7 => {
                let n = self.user();
                transfer_own(who, n, which == 7)
            }
            8 => {
                let n = match (cfg.pending, self.rng.below(4)) {
                    (Some(p), 0..=1) => p,
                    (_, 2) => cfg.owner,
                    _ => self.user(),
                };
                let mut c = claim(n);
                c.note = if Some(n) == cfg.pending {
                    "nominee"
                } else if n == cfg.owner {
                    "owner"
                } else {
                    "stranger"
                }
                .into();
                return self.go(c, mutp);
            }
            9 => {
                let s = if self.rng.chance(1, 10) { self.rng.below(3000) } else { self.svm.slot_hashes[self.rng.usize(self.svm.slot_hashes.len())].0 };
                let mut c = init_lut(payer, s, &cfg);
                c.note = "anyone".into();
                return self.go(c, mutp * 2);
            }
            10 => {
                let x = if self.rng.bool() { NTT } else { XCVR };
                let k = self.fresh();
                let mut c = bc_id(x, payer, self.mint, k);
                c.note = "anyone".into();
                return self.go(c, mutp);
            }
            _ => {
                let x = if self.rng.bool() { NTT } else { XCVR };
                let ch = self.any_chain();
                let k = self.fresh();
                let mut c = bc_peer(x, payer, ch, k);
                c.note = if self.chains.contains(&ch) { "registered" } else { "unregistered" }.into();
                return self.go(c, mutp);
            }
        };
        let is_peer = matches!(c.op, Op::SetPeer { .. });
        let ch = match c.op {
            Op::SetPeer { chain, .. } => chain,
            _ => 0,
        };
        let c = self.noted(c, who);
        let ok = self.go(c, mutp);
        if ok && is_peer && !self.chains.contains(&ch) {
            self.chains.push(ch);
            self.spare.retain(|x| *x != ch);
        }
        ok
    }

    pub fn advance_intent(&mut self) {
        let now = self.svm.now();
        let mut rel: Vec<i64> = vec![];
        for k in self.items.iter().chain(self.inboxes.iter()) {
            match parse(&self.svm.get(k)) {
                St::Outbox(o) if o.release > now => rel.push(o.release),
                St::Inbox(i) => {
                    if let Status::After(t) = i.status {
                        if t > now {
                            rel.push(t)
                        }
                    }
                }
                _ => {}
            }
        }
        let d = match self.rng.below(12) {
            0 => 1,
            1 => self.rng.below(60) as i64,
            2 => self.rng.below(3600) as i64,
            3 => self.rng.below(DAY as u64) as i64,
            4 => DAY,
            5 => DAY - 1,
            6 => DAY + 1,
            7 if self.rng.chance(1, 12) => (1 << *self.rng.pick(&[31i64, 32, 33])) + self.rng.below(2 * DAY as u64) as i64 - DAY / 2,
            7 if self.rng.chance(1, 6) => self.rng.below(20 * 365 * DAY as u64) as i64,
            7 => self.rng.below(40 * DAY as u64) as i64,
            _ if !rel.is_empty() => {
                let t = *self.rng.pick(&rel);
                (t - now + self.rng.below(3) as i64 - 1).max(0)
            }
            _ => self.rng.below(20000) as i64,
        };
        self.svm.advance(d);
        if self.verbose {
            println!("  advance {d} -> {}", self.svm.now());
        }
        let l = format!("t={} (clock advanced by {d})", self.svm.now());
        self.obs.log.push(l);
    }

    /// Configuration changes that no instruction offers yet (threshold,
    /// disabling a transceiver) are made directly in the account.
    pub fn inject_intent(&mut self) {
        let Some(cfg) = self.config() else { return };
        let l;
        match self.rng.below(5) {
            0 | 1 => {
                let n = cfg.enabled.count_ones().max(1) as u64;
                let t = if self.rng.chance(1, 12) { 0 } else { self.rng.range(1, n) as u8 };
                self.edit_config(|c| c.threshold = t);
                l = format!("(threshold set to {t})");
            }
            2 | 3 => {
                let all = if cfg.next_id >= 128 { u128::MAX } else { (1u128 << cfg.next_id) - 1 };
                let e = if self.rng.chance(1, 2) { all } else { all & (self.rng.u64() as u128 | (self.rng.u64() as u128) << 64) };
                self.edit_config(|c| c.enabled = e);
                l = format!("(enabled transceivers set to {e:b})");
            }
            _ => {
                // donation to custody, and plain transfers between users
                let (f, o) = *self.rng.pick(&self.toks);
                let b = self.bal(&f);
                let a = self.rng.below(b / 3 + 1);
                if self.rng.bool() {
                    let before = self.bal(&cfg.custody);
                    if self.move_tokens(f, cfg.custody, o, a) {
                        self.hist.donated(self.bal(&cfg.custody) - before);
                    }
                    l = format!("(donation of {a} to custody)");
                } else {
                    let (t, _) = *self.rng.pick(&self.toks);
                    self.move_tokens(f, t, o, a);
                    l = format!("(transfer of {a} between users)");
                }
            }
        }
        if self.verbose {
            println!("  {l}");
        }
        self.obs.log.push(l);
    }

    pub fn random_step(&mut self, wts: &[u32; 20], mutp: u64) {
        let i = self.rng.weighted(wts);
        match i {
            0 => {
                self.transfer_intent(mutp);
            }
            1 => {
                self.receive_intent(mutp);
            }
            2 => self.external_attest(),
            3 => {
                self.redeem_intent(mutp);
            }
            4 => {
                self.release_in_intent(mutp);
            }
            5 => {
                self.release_out_intent(mutp);
            }
            6 => {
                self.mark_intent(mutp);
            }
            7 => self.advance_intent(),
            8..=15 => {
                self.admin_intent(i - 8, mutp);
                // do not stay paused or locked for long
            }
            16 => {
                let k = 8 + self.rng.usize(4);
                self.admin_intent(k, mutp);
            }
            17 => self.inject_intent(),
            18 => {
                if self.config().map(|c| c.paused).unwrap_or(false) {
                    let o = self.owner();
                    let c = self.noted(pause(o, false), o);
                    self.call(c);
                }
            }
            _ => {
                let k = self.rng.range(9, 11) as usize;
                self.admin_intent(k, mutp);
            }
        }
    }
}

pub fn fl_name(f: &Flavor) -> &'static str {
    match f {
        Flavor::Spl => "spl",
        Flavor::T22 => "t22",
        Flavor::Hook => "hook",
        Flavor::Fee(..) => "fee",
        Flavor::FeeHook(..) => "feehook",
    }
}

pub fn fmt_args(c: &Call) -> String {
    let mut s = match &c.op {
        Op::Transfer { a, .. } => format!("amount={} chain={} queue={}", a.amount, a.chain, a.queue),
        Op::SetXPeer { prog, chain, .. } => format!("prog={prog} chain={chain}"),
        o => {
            let d = format!("{o:?}");
            d.chars().take(120).collect()
        }
    };
    for n in ["outbox_item", "inbox_item", "transceiver_message", "transceiver", "from", "recipient", "vaa"] {
        if let Some(x) = c.slots.iter().find(|x| x.name == n) {
            s += &format!(" {n}={}", short(x.key.as_ref()));
        }
    }
    s
}

#[allow(unused)]
fn _unused(_: &V) {}
