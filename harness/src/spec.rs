//! The step oracle: from the ledger before a transaction and the call alone,
//! decide whether it must be refused (and which property that protects) or
//! must succeed, and what exactly it may change. Written from the properties;
//! shares no code with the programs under test.
use crate::{ix::*, keys::*, state::*, svm::*};
use solana_sdk::{account::ReadableAccount, instruction::AccountMeta, pubkey::Pubkey};
use std::collections::{BTreeMap, HashSet};

pub type Tags = &'static [&'static str];

pub struct V<'a> {
    pub pre: &'a Svm,
    pub call: &'a Call,
    pub rej: Vec<(Tags, String)>,
    pub exp: BTreeMap<Pubkey, St>,
    pub lam: BTreeMap<Pubkey, u64>,
    /// balances that may not end up lower
    pub floor: BTreeMap<Pubkey, u64>,
    /// accounts whose content is not judged
    pub free: HashSet<Pubkey>,
    /// acceptance is not determined by the properties
    pub either: bool,
    pub ret: Option<Vec<u8>>,
    /// hook executions expected: Some(amount) once, None none
    pub hook: Option<u64>,
    /// governance: the one instruction expected to be executed
    pub cpi: Option<(Pubkey, Vec<AccountMeta>, Vec<u8>)>,
    /// what a refusal of this (valid) call would violate
    pub valid: Vec<&'static str>,
    /// the call is valid but must have no effect
    pub noop: bool,
    pub fee_or_hook: bool,
    /// token value taken from a user / paid to a user (local units)
    pub moved: u64,
    pub class: &'static str,
}

impl<'a> V<'a> {
    fn st(&self, k: &Pubkey) -> St {
        parse(&self.pre.get(k))
    }
    fn req(&mut self, ok: bool, tags: Tags, why: &str) -> bool {
        if !ok {
            self.rej.push((tags, why.to_string()));
        }
        ok
    }
    fn k(&self, n: &str) -> Pubkey {
        self.call.get(n)
    }
    fn signer(&mut self, n: &str, tags: Tags) -> bool {
        let k = self.k(n);
        let ok = self.call.signs(&k);
        self.req(ok, tags, &format!("{n} did not sign"))
    }
    /// Signed and able to pay (otherwise the outcome is the runtime's affair).
    fn payer(&mut self, n: &str) {
        self.signer(n, &[]);
        let a = self.pre.get(&self.k(n));
        let ok = *a.owner() == SYSTEM && a.data().is_empty() && a.lamports() >= 1_000_000_000;
        self.req(ok, &[], "payer cannot pay");
    }
    fn is(&mut self, n: &str, want: Pubkey, tags: Tags) -> bool {
        let k = self.k(n);
        self.req(k == want, tags, &format!("{n} is not {want}"))
    }
    fn vacant(&mut self, n: &str, tags: Tags) -> bool {
        let k = self.k(n);
        let ok = self.st(&k) == St::None;
        self.req(ok, tags, &format!("{n} already in use"))
    }
    fn sys(&mut self) {
        self.is("system_program", SYSTEM, &[]);
    }
    fn config(&mut self, tags: Tags) -> Option<Config> {
        let k = self.k("config");
        match self.st(&k) {
            St::Config(c) if *self.pre.get(&k).owner() == NTT => Some(c),
            _ => {
                self.rej.push((tags, "not the configuration account".into()));
                None
            }
        }
    }
    fn rate(&mut self, n: &str, want: Pubkey, tags: Tags) -> Option<Rate> {
        let k = self.k(n);
        if !self.is(n, want, tags) {
            return None;
        }
        match self.st(&k) {
            St::Orl(r) => Some(r),
            St::Irl { rate, .. } => Some(rate),
            _ => {
                self.rej.push((tags, format!("{n} not initialised")));
                None
            }
        }
    }
    fn set_rate(&mut self, n: &str, r: Rate) {
        let k = self.k(n);
        let s = match self.st(&k) {
            St::Irl { bump, .. } => St::Irl { bump, rate: r },
            _ => St::Orl(r),
        };
        self.exp.insert(k, s);
    }
    fn tok(&mut self, n: &str, tags: Tags) -> Option<Tok> {
        let k = self.k(n);
        match self.st(&k) {
            St::Tok(t) => Some(t),
            _ => {
                self.rej.push((tags, format!("{n} is not a token account")));
                None
            }
        }
    }
    fn mint(&mut self, tags: Tags) -> Option<MintS> {
        let k = self.k("mint");
        match self.st(&k) {
            St::Mint(t) => Some(t),
            _ => {
                self.rej.push((tags, "mint is not a mint".into()));
                None
            }
        }
    }
    fn tp(&mut self, want: Pubkey, tags: Tags) {
        self.is("token_program", want, tags);
    }
    fn hook_fee(&self, mint: &Pubkey, amount: u64) -> (bool, u64) {
        mint_ext(self.pre, mint, amount)
    }
    fn extras_have(&self, keys: &[Pubkey]) -> bool {
        keys.iter().all(|k| self.call.extra.iter().any(|m| m.pubkey == *k) || self.call.slots.iter().any(|s| s.key == *k))
    }
    fn wormhole(&mut self, prog: &Pubkey, tags: Tags) {
        let em = emitter(prog);
        self.is("emitter", em, tags);
        self.is("bridge", bridge(), tags);
        self.is("fee_collector", fee_collector(), tags);
        self.is("sequence", sequence(&em), tags);
        self.is("wormhole_program", CORE_BRIDGE, tags);
        self.is("clock", CLOCK, &[]);
        self.is("rent", RENT, &[]);
    }
    fn expect_post(&mut self, prog: &Pubkey, payload: Vec<u8>) {
        let em = emitter(prog);
        let seqk = sequence(&em);
        let seq = match self.st(&seqk) {
            St::Seq(s) => s,
            _ => 0,
        };
        self.exp.insert(seqk, St::Seq(seq + 1));
        let m = self.k("wormhole_message");
        self.exp.insert(
            m,
            St::Posted(Posted { magic: *b"msg", version: 0, consistency: 32, time: 0, sigs: Pubkey::default(), posted_time: 0, nonce: 0, sequence: seq, chain: 1, emitter: em.to_bytes(), payload }),
        );
        let fee = u64::from_le_bytes(self.pre.data(&bridge())[16..24].try_into().unwrap());
        self.lam.insert(fee_collector(), self.pre.lamports(&fee_collector()) + fee);
        self.free.insert(bridge());
    }
}

/// (has transfer hook, transfer fee for `amount`) of a mint
pub fn mint_ext(svm: &Svm, mint: &Pubkey, amount: u64) -> (bool, u64) {
    use spl_token_2022::extension::{transfer_fee::TransferFeeConfig, transfer_hook::TransferHook, BaseStateWithExtensions, StateWithExtensions};
    let a = svm.get(mint);
    if *a.owner() != SPL22 {
        return (false, 0);
    }
    let Ok(s) = StateWithExtensions::<spl_token_2022::state::Mint>::unpack(a.data()) else { return (false, 0) };
    let hook = s.get_extension::<TransferHook>().map(|h| Option::<Pubkey>::from(h.program_id).is_some()).unwrap_or(false);
    let fee = s
        .get_extension::<TransferFeeConfig>()
        .map(|f| {
            let t = f.get_epoch_fee(0);
            let bps = u16::from(t.transfer_fee_basis_points) as u128;
            let max = u64::from(t.maximum_fee);
            if bps == 0 || amount == 0 {
                0
            } else {
                ((amount as u128 * bps + 9999) / 10000).min(max as u128) as u64
            }
        })
        .unwrap_or(0);
    (hook, fee)
}

/// Strict decoding of a posted transceiver message: Ok(Some) canonical,
/// Ok(None) decodable in some reading but not canonical, Err(()) malformed.
pub fn decode_transceiver(p: &[u8]) -> Result<Option<Vtm>, ()> {
    let mut r = Rd(p);
    fn go(r: &mut Rd) -> Option<(Vtm, bool)> {
        if r.take(4)? != [0x99, 0x45, 0xff, 0x10] {
            return None;
        }
        let (src_mgr, rcpt_mgr) = (r.b32()?, r.b32()?);
        let len = r.u16be()?;
        let (id, sender) = (r.b32()?, r.b32()?);
        let l2 = r.u16be()?;
        if r.take(4)? != [0x99, 0x4e, 0x54, 0x54] {
            return None;
        }
        let (decimals, amount, token, to, to_chain) = (r.u8()?, r.u64be()?, r.b32()?, r.b32()?, r.u16be()?);
        let n = r.u16be()? as usize;
        r.take(n)?;
        let canon = len == 145 && l2 == 79 && r.0.is_empty();
        Some((Vtm { from_chain: 0, src_mgr, rcpt_mgr, msg: Msg { id, sender, amount, decimals, token, to, to_chain } }, canon))
    }
    match go(&mut r) {
        None => Err(()),
        Some((v, true)) => Ok(Some(v)),
        Some((_, false)) => Ok(None),
    }
}

pub struct GovMsg {
    pub gov: Pubkey,
    pub program: Pubkey,
    pub accounts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}
pub const GOV_MODULE: [u8; 32] = *b"\0\0\0\0\0\0\0\0GeneralPurposeGovernance";
pub const GOV_OWNER: [u8; 32] = *b"owner\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0";
pub const GOV_PAYER: [u8; 32] = *b"payer\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0";
pub const GOV_EMITTER: [u8; 32] = {
    let mut e = [0; 32];
    e[31] = 4;
    e
};
impl GovMsg {
    pub fn wire(&self) -> Vec<u8> {
        let mut v = GOV_MODULE.to_vec();
        v.push(2);
        v.extend_from_slice(&1u16.to_be_bytes());
        v.extend_from_slice(self.gov.as_ref());
        v.extend_from_slice(self.program.as_ref());
        v.extend_from_slice(&(self.accounts.len() as u16).to_be_bytes());
        for (k, s, w) in &self.accounts {
            v.extend_from_slice(k.as_ref());
            v.push(*s as u8);
            v.push(*w as u8);
        }
        v.extend_from_slice(&(self.data.len() as u16).to_be_bytes());
        v.extend_from_slice(&self.data);
        v
    }
    /// Err(tags): must be refused
    pub fn decode(p: &[u8]) -> Result<(GovMsg, bool), Tags> {
        let mut r = Rd(p);
        fn go(r: &mut Rd) -> Option<Result<GovMsg, Tags>> {
            if r.take(32)? != GOV_MODULE {
                return Some(Err(&["C30"]));
            }
            if r.u8()? != 2 {
                return Some(Err(&["C30"]));
            }
            if r.u16be()? != 1 {
                return Some(Err(&["C30"]));
            }
            let gov = r.pk()?;
            let program = r.pk()?;
            let n = r.u16be()?;
            let mut accounts = vec![];
            for _ in 0..n {
                accounts.push((r.pk()?, r.boolean()?, r.boolean()?));
            }
            let n = r.u16be()? as usize;
            Some(Ok(GovMsg { gov, program, accounts, data: r.take(n)?.to_vec() }))
        }
        match go(&mut r) {
            None => Err(&["C31"]),
            Some(Err(t)) => Err(t),
            Some(Ok(m)) => Ok((m, r.0.is_empty())),
        }
    }
}

pub fn spec<'a>(pre: &'a Svm, call: &'a Call) -> V<'a> {
    let mut v = V {
        pre,
        call,
        rej: vec![],
        exp: BTreeMap::new(),
        lam: BTreeMap::new(),
        floor: BTreeMap::new(),
        free: HashSet::new(),
        either: false,
        ret: None,
        hook: None,
        cpi: None,
        valid: vec![],
        noop: false,
        fee_or_hook: false,
        moved: 0,
        class: "valid",
    };
    // every account must exist as named; missing effects default to "unchanged"
    let _ = judge(&mut v);
    v
}

fn judge(v: &mut V) -> Option<()> {
    let now = v.pre.now();
    match v.call.op.clone() {
        Op::Init { chain, limit, mode } => {
            const T: Tags = &["C22"];
            v.valid = vec!["C22"];
            v.payer("payer");
            v.signer("deployer", T);
            v.sys();
            v.is("loader", loader(), &[]);
            v.is("ata_program", ATA_PROGRAM, &[]);
            v.is("program_data", program_data(&NTT), T);
            let dep = v.k("deployer");
            match v.st(&program_data(&NTT)) {
                St::ProgData { authority } => {
                    v.req(authority == Some(dep), T, "deployer is not the upgrade authority");
                }
                _ => {
                    v.req(false, T, "no program data");
                }
            }
            v.is("config", config(), T);
            v.vacant("config", T);
            v.is("rate_limit", outbox_rl(), T);
            v.vacant("rate_limit", T);
            v.is("token_authority", token_authority(), T);
            let m = v.mint(T)?;
            let mk = v.k("mint");
            v.tp(m.program, &["C22"]);
            if mode == 1 {
                v.req(m.authority == Some(token_authority()), T, "burning without mint authority");
            }
            v.req(mode < 2, T, "invalid mode");
            let cust = ata(&token_authority(), &mk, &m.program);
            v.is("custody", cust, T);
            if v.st(&cust) == St::None {
                v.exp.insert(
                    cust,
                    St::Tok(Tok { program: m.program, mint: mk, owner: token_authority(), amount: 0, delegate: None, delegated: 0, state: 1, withheld: 0 }),
                );
            }
            let c = Config {
                bump: pda(&NTT, &[b"config"]).1,
                owner: dep,
                pending: None,
                mint: mk,
                token_program: m.program,
                mode,
                chain,
                next_id: 0,
                threshold: 1,
                enabled: 0,
                paused: false,
                custody: cust,
            };
            v.exp.insert(config(), St::Config(c));
            v.exp.insert(outbox_rl(), St::Orl(Rate::fresh(limit)));
        }
        Op::Transfer { burn, a } => {
            v.valid = vec!["C01", "C08", "C15", "C10", "C11", "C20", "C32", "C16"];
            v.payer("payer");
            v.sys();
            let c = v.config(&["C01", "C15", "C16"])?;
            v.req(!c.paused, &["C16"], "paused");
            v.req(c.enabled != 0, &["C13"], "no transceivers");
            v.req((c.mode == 1) == burn, &["C01"], "instruction of the other mode");
            v.is("mint", c.mint, &["C01", "C04"]);
            let m = v.mint(&["C01"])?;
            let f = v.tok("from", &["C01"])?;
            v.req(f.mint == c.mint, &["C01", "C04", "C15"], "from of another mint");
            v.tp(m.program, &["C01", "C04"]);
            v.req(f.program == m.program, &[], "token program");
            v.signer("outbox_item", &[]);
            v.vacant("outbox_item", &["C01", "C13", "C12"]);
            v.req(v.k("outbox_item") != v.k("payer"), &[], "outbox item is the payer");
            let orl = v.rate("outbox_rate_limit", outbox_rl(), &["C08", "C10", "C11"]);
            v.is("custody", c.custody, &["C01", "C04"]);
            let irl = v.rate("inbox_rate_limit", inbox_rl(a.chain).0, &["C11", "C32", "C10"]);
            v.is("peer", peer(a.chain).0, &["C01", "C32", "C14"]);
            let pk = v.k("peer");
            let (paddr, pdec) = match v.st(&pk) {
                St::Peer { addr, decimals, .. } => (addr, decimals),
                _ => {
                    v.req(false, &["C01", "C32"], "no peer");
                    return None;
                }
            };
            let sess = session(&f.owner, &a.digest());
            v.is("session_authority", sess, &["C15"]);
            if burn {
                v.is("token_authority", token_authority(), &[]);
            }
            let td = pdec.min(m.decimals).min(8);
            if factor_overflows(m.decimals, td) {
                v.either = true;
            }
            let trimmed = scale(a.amount, m.decimals, td)?;
            let amt = match scale(trimmed, td, m.decimals) {
                Some(x) => x,
                None => {
                    v.req(false, &["C20"], "unrepresentable amount");
                    return None;
                }
            };
            v.req(f.delegate == Some(sess) && f.delegated >= amt, &["C15"], "no approval for these arguments");
            v.req(f.amount >= amt, &["C01", "C04", "C15"], "insufficient balance");
            v.req(f.state == 1, &[], "frozen");
            let cust = match v.st(&c.custody) {
                St::Tok(t) => t,
                _ => return None,
            };
            let fk = v.k("from");
            if fk == c.custody {
                v.req(false, &["C15", "C01"], "from is custody");
                return None;
            }
            if !burn {
                v.req(cust.amount.checked_add(amt).is_some(), &[], "custody overflow");
            } else {
                v.req(m.supply >= amt, &[], "supply underflow");
            }
            let (hook, fee) = v.hook_fee(&c.mint, amt);
            v.req(fee == 0, &["C25", "C01"], "fee charged on outbound transfer");
            if hook {
                v.fee_or_hook = true;
                v.valid.push("C25");
                let ok = v.extras_have(&[HOOK, hook_metas(&c.mint), hook_dummy(&f.owner), hook_counter()]);
                v.req(ok, &["C25"], "hook accounts missing");
                v.hook = Some(amt);
                if let St::Counter(n) = v.st(&hook_counter()) {
                    v.exp.insert(hook_counter(), St::Counter(n + 1));
                }
            }
            let (orl, irl) = (orl?, irl?);
            let release = match orl.consume(amt, now) {
                Some(n) => {
                    v.set_rate("outbox_rate_limit", n);
                    v.set_rate("inbox_rate_limit", irl.refill(amt, now));
                    v.class = "immediate";
                    now
                }
                None => {
                    v.req(a.queue, &["C08"], "exceeds capacity, queueing not requested");
                    v.class = "queued";
                    now + DAY
                }
            };
            v.moved = amt;
            let del = f.delegated - amt.min(f.delegated);
            v.exp.insert(fk, St::Tok(Tok { amount: f.amount - amt.min(f.amount), delegated: del, delegate: if del == 0 { None } else { f.delegate }, ..f.clone() }));
            if burn {
                v.exp.insert(c.mint, St::Mint(MintS { supply: m.supply.wrapping_sub(amt), ..m }));
            } else {
                v.exp.insert(c.custody, St::Tok(Tok { amount: cust.amount.wrapping_add(amt), ..cust }));
            }
            let item = v.k("outbox_item");
            v.exp.insert(
                item,
                St::Outbox(Outbox { amount: trimmed, decimals: td, sender: f.owner, chain: a.chain, manager: paddr, to: a.to, release, released: 0 }),
            );
        }
        Op::Redeem => {
            v.valid = vec!["C06", "C07", "C09", "C10", "C11", "C20", "C23", "C32"];
            v.payer("payer");
            v.sys();
            let c = v.config(&["C06", "C07"])?;
            if c.paused {
                v.valid.push("C16");
            }
            v.req(c.threshold > 0, &["C07"], "zero threshold");
            let xk = v.k("transceiver");
            let (id, xaddr) = match v.st(&xk) {
                St::Reg { id, addr, .. } => (id, addr),
                _ => {
                    v.req(false, &["C06", "C07"], "not a registered transceiver");
                    return None;
                }
            };
            let bit = if id < 128 { 1u128 << id } else { 0 };
            v.req(c.enabled & bit != 0, &["C07"], "transceiver not enabled");
            let mk = v.k("transceiver_message");
            let macc = v.pre.get(&mk);
            v.req(*macc.owner() == xaddr, &["C06", "C07"], "message not validated by that transceiver");
            let Some(m) = Vtm::parse(macc.data()) else {
                v.req(false, &["C06"], "not a validated message");
                return None;
            };
            let pk = v.k("peer");
            v.is("peer", peer(m.from_chain).0, &["C06", "C32"]);
            match v.st(&pk) {
                St::Peer { addr, .. } => {
                    v.req(addr == m.src_mgr, &["C06", "C32"], "source manager is not the peer");
                }
                _ => {
                    v.req(false, &["C06", "C32"], "no peer");
                }
            }
            v.req(m.msg.to_chain == c.chain, &["C06", "C32"], "addressed to another chain");
            v.req(m.rcpt_mgr == NTT.to_bytes(), &["C06"], "addressed to another manager");
            v.is("mint", c.mint, &["C03"]);
            let mint = v.mint(&["C03"])?;
            let (ik, bump) = m.msg.inbox(m.from_chain);
            v.is("inbox_item", ik, &["C02", "C07", "C23"]);
            let irl = v.rate("inbox_rate_limit", inbox_rl(m.from_chain).0, &["C09", "C32", "C10"]);
            let orl = v.rate("outbox_rate_limit", outbox_rl(), &["C11", "C10"]);
            let amt = match scale(m.msg.amount, m.msg.decimals, mint.decimals) {
                Some(x) => x,
                None => {
                    v.req(false, &["C20", "C03"], "amount cannot be represented");
                    return None;
                }
            };
            if factor_overflows(m.msg.decimals, mint.decimals) {
                v.either = true;
            }
            let mut item = match v.st(&ik) {
                St::Inbox(i) if i.init => {
                    v.class = "later vote";
                    i
                }
                St::None => Inbox { init: true, bump, amount: amt, recipient: Pubkey::new_from_array(m.msg.to), votes: 0, status: Status::NotApproved },
                _ => return None,
            };
            item.votes |= bit;
            if (item.votes & c.enabled).count_ones() >= c.threshold as u32 {
                if item.status != Status::NotApproved {
                    v.req(false, &["C02", "C09", "C23"], "already approved");
                }
                let (irl, orl) = (irl?, orl?);
                match irl.consume(amt, now) {
                    Some(n) => {
                        v.set_rate("inbox_rate_limit", n);
                        v.set_rate("outbox_rate_limit", orl.refill(amt, now));
                        item.status = Status::After(now);
                        v.class = "approved now";
                    }
                    None => {
                        item.status = Status::After(now + DAY);
                        v.class = "approved delayed";
                    }
                }
            } else if v.class == "valid" {
                v.class = "first vote";
            }
            v.exp.insert(ik, St::Inbox(item));
        }
        Op::ReleaseIn { mint, revert } => {
            v.valid = vec!["C12", "C03", "C04", "C16", "C23"];
            v.payer("payer");
            let c = v.config(&["C03", "C16"])?;
            v.req(!c.paused, &["C16"], "paused");
            v.req((c.mode == 1) == mint, &["C03"], "release instruction of the other mode");
            let ik = v.k("inbox_item");
            let it = match v.st(&ik) {
                St::Inbox(i) => i,
                _ => {
                    v.req(false, &["C02", "C03"], "not an inbox item");
                    return None;
                }
            };
            v.is("mint", c.mint, &["C03"]);
            let m = v.mint(&["C03"])?;
            v.tp(m.program, &["C03", "C04"]);
            v.is("token_authority", token_authority(), &[]);
            v.is("custody", c.custody, &["C03", "C04"]);
            v.is("recipient", ata(&it.recipient, &c.mint, &m.program), &["C03", "C04"]);
            let rec = v.tok("recipient", &["C03"])?;
            v.req(rec.owner == it.recipient && rec.mint == c.mint, &["C03"], "recipient account not owned by the recipient");
            let cust = match v.st(&c.custody) {
                St::Tok(t) => t,
                _ => return None,
            };
            let due = match it.status {
                Status::Released => {
                    v.req(false, &["C02", "C23"], "already released");
                    return None;
                }
                Status::NotApproved => false,
                Status::After(t) => t <= now,
            };
            if !due {
                v.noop = true;
                v.class = if it.status == Status::NotApproved { "not approved" } else { "not due" };
                v.valid = vec!["C12"];
                v.req(!revert, &["C12"], "not due and caller asked to revert");
                return Some(());
            }
            v.class = "paid out";
            let amt = it.amount;
            let (hook, fee) = v.hook_fee(&c.mint, amt);
            let rk = v.k("recipient");
            if mint {
                v.req(m.authority == Some(token_authority()), &[], "not the mint authority");
                v.req(m.supply.checked_add(amt).is_some(), &["C04"], "supply overflow");
            } else {
                v.req(cust.amount >= amt, &["C04"], "custody too low");
            }
            if hook {
                v.fee_or_hook = true;
                v.valid.push("C25");
                let ok = v.extras_have(&[HOOK, hook_metas(&c.mint), hook_dummy(&token_authority()), hook_counter()]);
                if rk == c.custody {
                    // paying custody itself moves nothing, the token program then skips the hook
                    v.either |= !ok;
                } else {
                    v.req(ok, &["C25"], "hook accounts missing");
                    v.hook = Some(amt);
                }
                if rk == c.custody {
                } else if let St::Counter(n) = v.st(&hook_counter()) {
                    v.exp.insert(hook_counter(), St::Counter(n + 1));
                }
            }
            v.moved = amt;
            v.req(rk == c.custody || rec.withheld.checked_add(fee).is_some(), &[], "withheld overflow");
            v.exp.insert(ik, St::Inbox(Inbox { status: Status::Released, ..it }));
            if mint {
                v.exp.insert(c.mint, St::Mint(MintS { supply: m.supply.wrapping_add(amt), ..m }));
                if rk == c.custody {
                    v.exp.insert(rk, St::Tok(Tok { amount: cust.amount.wrapping_add(amt), ..cust }));
                } else {
                    v.req(cust.amount.checked_add(amt).is_some(), &[], "custody overflow");
                    v.req(rec.amount.checked_add(amt).is_some(), &[], "recipient overflow");
                    v.exp.insert(rk, St::Tok(Tok { amount: rec.amount.wrapping_add(amt - fee), withheld: rec.withheld.wrapping_add(fee), ..rec }));
                }
            } else if rk != c.custody {
                v.exp.insert(c.custody, St::Tok(Tok { amount: cust.amount.wrapping_sub(amt), ..cust }));
                v.exp.insert(rk, St::Tok(Tok { amount: rec.amount.wrapping_add(amt - fee), withheld: rec.withheld.wrapping_add(fee), ..rec }));
            }
        }
        Op::ReleaseOut { prog, revert } => {
            v.valid = vec!["C12", "C13", "C14", "C16", "C24"];
            v.payer("payer");
            v.sys();
            let c = v.config(&["C13", "C16"])?;
            v.req(!c.paused, &["C16"], "paused");
            let ok = v.k("outbox_item");
            let it = match v.st(&ok) {
                St::Outbox(o) if *v.pre.get(&ok).owner() == NTT => o,
                _ => {
                    v.req(false, &["C13", "C14"], "not a queued transfer");
                    return None;
                }
            };
            let xk = v.k("transceiver");
            let (id, xaddr) = match v.st(&xk) {
                St::Reg { id, addr, .. } => (id, addr),
                _ => {
                    v.req(false, &["C13", "C24"], "not a registered transceiver");
                    return None;
                }
            };
            let bit = if id < 128 { 1u128 << id } else { 0 };
            v.req(xaddr == prog, &["C13", "C24"], "another transceiver's registration");
            v.req(c.enabled & bit != 0, &["C13", "C24"], "transceiver not enabled");
            v.req(it.released & bit == 0, &["C13", "C24"], "already published");
            v.is("wormhole_message", wh_message(&prog, &ok), &["C13", "C14"]);
            if prog != NTT {
                v.is("manager", NTT, &["C13", "C24"]);
                v.is("outbox_item_signer", item_signer(&prog), &["C24"]);
            }
            if it.release > now {
                // account checks that only matter for posting are not judged here
                v.noop = true;
                v.class = "not due";
                v.valid = vec!["C12"];
                if v.rej.is_empty() && !posting_accounts_ok(v, &prog) {
                    v.either = true;
                }
                v.req(!revert, &["C12"], "not due and caller asked to revert");
                return Some(());
            }
            v.class = "published";
            v.wormhole(&prog, &["C14"]);
            let mk = v.k("wormhole_message");
            v.req(v.pre.get(&mk).data().is_empty(), &["C13"], "message account in use");
            let m = Msg { id: ok.to_bytes(), sender: it.sender.to_bytes(), amount: it.amount, decimals: it.decimals, token: c.mint.to_bytes(), to: it.to, to_chain: it.chain };
            let payload = m.transceiver_wire(&NTT.to_bytes(), &it.manager, &[]);
            v.exp.insert(ok, St::Outbox(Outbox { released: it.released | bit, ..it }));
            v.expect_post(&prog, payload);
        }
        Op::Mark => {
            v.valid = vec!["C24", "C13", "C16"];
            let c = v.config(&["C24", "C16"])?;
            v.req(!c.paused, &["C16", "C24"], "paused");
            let ok = v.k("outbox_item");
            let it = match v.st(&ok) {
                St::Outbox(o) if *v.pre.get(&ok).owner() == NTT => o,
                _ => {
                    v.req(false, &["C24"], "not a queued transfer");
                    return None;
                }
            };
            let xk = v.k("transceiver");
            let (id, xaddr) = match v.st(&xk) {
                St::Reg { id, addr, .. } => (id, addr),
                _ => {
                    v.req(false, &["C24"], "not a registered transceiver");
                    return None;
                }
            };
            let bit = if id < 128 { 1u128 << id } else { 0 };
            v.is("signer", item_signer(&xaddr), &["C24"]);
            v.signer("signer", &["C24"]);
            v.req(c.enabled & bit != 0, &["C24", "C13"], "transceiver not enabled");
            v.req(it.released & bit == 0, &["C24", "C13"], "already marked");
            if it.release > now {
                v.noop = true;
                v.class = "not due";
                v.ret = Some(vec![0]);
            } else {
                v.class = "marked";
                v.ret = Some(vec![1]);
                v.exp.insert(ok, St::Outbox(Outbox { released: it.released | bit, ..it }));
            }
        }
        Op::Receive { prog } => {
            const T: Tags = &["C05"];
            v.valid = vec!["C05", "C16", "C19", "C32"];
            v.payer("payer");
            v.sys();
            let c = v.config(&["C05", "C16"])?;
            v.req(!c.paused, &["C16", "C05"], "paused");
            let vk = v.k("vaa");
            let va = v.pre.get(&vk);
            v.req(*va.owner() == CORE_BRIDGE, T, "not verified by the core bridge");
            let p = match Posted::parse(va.data()) {
                Some(p) => p,
                None => {
                    v.req(false, T, "not a posted message");
                    return None;
                }
            };
            v.req(&p.magic == b"vaa", T, "not a verified message");
            let m = match decode_transceiver(&p.payload) {
                Err(()) => {
                    v.req(false, &["C05", "C19"], "malformed payload");
                    return None;
                }
                Ok(None) => {
                    v.either = true;
                    return None;
                }
                Ok(Some(m)) => m,
            };
            let m = Vtm { from_chain: p.chain, ..m };
            v.is("peer", xpeer(&prog, p.chain).0, &["C05", "C32"]);
            let pk = v.k("peer");
            match v.st(&pk) {
                St::XPeer { prog: pp, addr, .. } => {
                    v.req(pp == prog, T, "peer of another transceiver");
                    v.req(addr == p.emitter, &["C05", "C32"], "emitter is not the peer");
                }
                _ => {
                    v.req(false, T, "no transceiver peer");
                }
            }
            v.req(m.msg.to_chain == c.chain, &["C05", "C06", "C32"], "addressed to another chain");
            let tk = xmsg(&prog, p.chain, &m.msg.id);
            v.is("transceiver_message", tk, &["C05", "C32"]);
            v.vacant("transceiver_message", &["C05", "C23"]);
            v.exp.insert(tk, St::Vtm { prog, v: m });
        }
        Op::SetXPeer { prog, chain, addr } => {
            v.valid = vec!["C17", "C32"];
            let c = v.config(&["C17"])?;
            v.payer("payer");
            v.sys();
            v.is("owner", c.owner, &["C17"]);
            v.signer("owner", &["C17"]);
            let (k, bump) = xpeer(&prog, chain);
            v.is("peer", k, &["C17", "C32"]);
            v.req(v.st(&k) == St::None, &["C05", "C17"], "this chain's transceiver peer is already set");
            v.exp.insert(k, St::XPeer { prog, bump, addr });
        }
        Op::BcId { prog } => {
            const T: Tags = &["C26"];
            v.valid = vec!["C26"];
            v.payer("payer");
            v.sys();
            let c = v.config(T)?;
            v.is("mint", c.mint, T);
            let m = v.mint(T)?;
            v.signer("wormhole_message", &[]);
            v.vacant("wormhole_message", T);
            v.wormhole(&prog, T);
            let mut p = vec![0x9c, 0x23, 0xbd, 0x3b];
            p.extend_from_slice(NTT.as_ref());
            p.push(c.mode);
            p.extend_from_slice(c.mint.as_ref());
            p.push(m.decimals);
            v.expect_post(&prog, p);
        }
        Op::BcPeer { prog, chain } => {
            const T: Tags = &["C26"];
            v.valid = vec!["C26"];
            v.payer("payer");
            v.sys();
            v.config(T)?;
            let (k, _) = xpeer(&prog, chain);
            v.is("peer", k, &["C26", "C32"]);
            let addr = match v.st(&k) {
                St::XPeer { addr, .. } => addr,
                _ => {
                    v.req(false, T, "unregistered chain");
                    return None;
                }
            };
            v.signer("wormhole_message", &[]);
            v.vacant("wormhole_message", T);
            v.wormhole(&prog, T);
            let mut p = vec![0x18, 0xfc, 0x67, 0xc2];
            p.extend_from_slice(&chain.to_be_bytes());
            p.extend_from_slice(&addr);
            v.expect_post(&prog, p);
        }
        Op::SetPeer { chain, addr, limit, dec } => {
            v.valid = vec!["C17", "C32"];
            v.payer("payer");
            v.sys();
            let c = v.config(&["C17"])?;
            v.is("owner", c.owner, &["C17"]);
            v.signer("owner", &["C17"]);
            let (p, pb) = peer(chain);
            let (i, ib) = inbox_rl(chain);
            v.is("peer", p, &["C17", "C32"]);
            v.is("inbox_rate_limit", i, &["C17", "C32"]);
            if c.paused {
                v.valid.push("C16");
            }
            v.exp.insert(p, St::Peer { bump: pb, addr, decimals: dec });
            v.exp.insert(i, St::Irl { bump: ib, rate: Rate::fresh(limit) });
        }
        Op::Register => {
            v.valid = vec!["C21", "C17"];
            v.payer("payer");
            v.sys();
            let c = v.config(&["C17"])?;
            v.is("owner", c.owner, &["C17"]);
            v.signer("owner", &["C17"]);
            let x = v.k("transceiver");
            v.req(v.pre.get(&x).executable(), &["C21"], "transceiver not executable");
            let (r, bump) = registered(&x);
            v.is("registered_transceiver", r, &["C21"]);
            v.vacant("registered_transceiver", &["C21"]);
            v.req(c.next_id < 128, &["C21"], "more than 128 transceivers");
            if c.next_id < 128 {
                v.exp.insert(config(), St::Config(Config { next_id: c.next_id + 1, enabled: c.enabled | 1u128 << c.next_id, ..c.clone() }));
                v.exp.insert(r, St::Reg { bump, id: c.next_id, addr: x });
            }
        }
        Op::SetOut { limit } => {
            v.valid = vec!["C17", "C10"];
            let c = v.config(&["C17"])?;
            v.is("owner", c.owner, &["C17"]);
            v.signer("owner", &["C17"]);
            if c.paused {
                v.valid.push("C16");
            }
            let r = v.rate("rate_limit", outbox_rl(), &["C17", "C10"])?;
            v.set_rate("rate_limit", r.set_limit(limit, now));
        }
        Op::SetIn { limit, chain } => {
            v.valid = vec!["C17", "C10", "C32"];
            let c = v.config(&["C17"])?;
            v.is("owner", c.owner, &["C17"]);
            v.signer("owner", &["C17"]);
            if c.paused {
                v.valid.push("C16");
            }
            let r = v.rate("rate_limit", inbox_rl(chain).0, &["C17", "C32", "C10"])?;
            v.set_rate("rate_limit", r.set_limit(limit, now));
        }
        Op::Pause(p) => {
            v.valid = vec!["C16", "C17"];
            let c = v.config(&["C17", "C16"])?;
            v.is("owner", c.owner, &["C17", "C16"]);
            v.signer("owner", &["C17", "C16"]);
            v.exp.insert(config(), St::Config(Config { paused: p, ..c }));
        }
        Op::TransferOwn | Op::TransferOwn1 => {
            const T: Tags = &["C18"];
            v.valid = vec!["C18"];
            let c = v.config(T)?;
            v.is("owner", c.owner, T);
            v.signer("owner", T);
            v.is("upgrade_lock", upgrade_lock(), T);
            v.is("program_data", program_data(&NTT), T);
            v.is("loader", loader(), T);
            let auth = match v.st(&program_data(&NTT)) {
                St::ProgData { authority } => authority,
                _ => None,
            };
            v.req(auth == Some(c.owner), T, "upgrade authority not with the owner");
            let n = v.k("new_owner");
            if v.call.op == Op::TransferOwn {
                v.exp.insert(config(), St::Config(Config { pending: Some(n), ..c }));
                v.exp.insert(program_data(&NTT), St::ProgData { authority: Some(upgrade_lock()) });
            } else {
                v.exp.insert(config(), St::Config(Config { pending: None, owner: n, ..c }));
                v.exp.insert(program_data(&NTT), St::ProgData { authority: Some(n) });
            }
        }
        Op::Claim => {
            const T: Tags = &["C18"];
            v.valid = vec!["C18"];
            let c = v.config(T)?;
            v.signer("new_owner", T);
            v.is("upgrade_lock", upgrade_lock(), T);
            v.is("program_data", program_data(&NTT), T);
            v.is("loader", loader(), T);
            let n = v.k("new_owner");
            v.req(c.pending == Some(n) || c.owner == n, T, "not the nominated owner");
            let auth = match v.st(&program_data(&NTT)) {
                St::ProgData { authority } => authority,
                _ => None,
            };
            v.req(auth == Some(upgrade_lock()) && c.pending.is_some(), T, "no transfer under way");
            v.exp.insert(config(), St::Config(Config { pending: None, owner: n, ..c }));
            v.exp.insert(program_data(&NTT), St::ProgData { authority: Some(n) });
        }
        Op::InitLut { slot } => {
            const T: Tags = &["C27"];
            v.valid = vec!["C27"];
            v.payer("payer");
            v.is("sys0", SYSTEM, &[]);
            v.sys();
            v.is("authority", lut_authority(), T);
            let table = lut_table(slot);
            v.is("lut_address", table, T);
            let (l, bump) = lut();
            v.is("lut", l, T);
            v.is("lut_program", LUT_PROGRAM, &[]);
            v.req(v.pre.slot_hashes.iter().any(|(s, _)| *s == slot), &[], "slot not recent");
            let c = v.config(T)?;
            v.is("custody", c.custody, T);
            v.is("token_program", c.token_program, T);
            v.is("mint", c.mint, T);
            v.is("token_authority", token_authority(), T);
            v.is("outbox_rate_limit", outbox_rl(), T);
            v.is("bridge", bridge(), T);
            v.is("fee_collector", fee_collector(), T);
            // which transceiver's sequence is listed is the caller's choice
            let seqk = v.k("sequence");
            if seqk != sequence(&emitter(&NTT)) && seqk != sequence(&emitter(&XCVR)) {
                v.either = true;
            }
            v.is("wormhole_program", CORE_BRIDGE, T);
            v.is("clock", CLOCK, T);
            v.is("rent", RENT, T);
            v.exp.insert(l, St::Lut { bump, addr: table });
            // a table created earlier in the same slot is extended
            let old = match v.st(&table) {
                St::Table { addrs, .. } => addrs,
                _ => vec![],
            };
            if old.len() + 14 > 256 {
                v.either = true;
            }
            let mut addrs = vec![
                NTT,
                config(),
                c.custody,
                c.token_program,
                c.mint,
                token_authority(),
                outbox_rl(),
                bridge(),
                fee_collector(),
                seqk,
                CORE_BRIDGE,
                SYSTEM,
                CLOCK,
                RENT,
            ];
            addrs.extend(old);
            v.exp.insert(table, St::Table { authority: Some(lut_authority()), addrs });
            v.lam.insert(table, u64::MAX); // not judged
        }
        Op::Gov => return gov_spec(v),
        _ => return quoter(v),
    }
    Some(())
}

fn posting_accounts_ok(v: &V, prog: &Pubkey) -> bool {
    let em = emitter(prog);
    v.k("emitter") == em && v.k("bridge") == bridge() && v.k("fee_collector") == fee_collector() && v.k("sequence") == sequence(&em) && v.k("wormhole_program") == CORE_BRIDGE && v.k("clock") == CLOCK && v.k("rent") == RENT
}

fn quoter(v: &mut V) -> Option<()> {
    const T: Tags = &["C29"];
    v.valid = vec!["C29"];
    let op = v.call.op.clone();
    if op == Op::QInit {
        v.signer("owner", T);
        v.payer("owner");
        v.sys();
        let o = v.k("owner");
        let rec = v.k("fee_recipient");
        v.is("instance", q_instance(), T);
        v.vacant("instance", T);
        v.req(rec != Pubkey::default(), T, "default fee recipient");
        v.is("program_data", program_data(&QUOTER), T);
        let auth = match v.st(&program_data(&QUOTER)) {
            St::ProgData { authority } => authority,
            _ => None,
        };
        v.req(auth == Some(o), T, "not the upgrade authority");
        v.exp.insert(q_instance(), St::Inst { owner: o, assistant: Pubkey::default(), recipient: rec, sol: 0 });
        return Some(());
    }
    if let Op::QReq { .. } = op {
        v.valid = vec!["C28"];
    }
    if matches!(op, Op::QParams { .. } | Op::QPrices { .. } | Op::QSol { .. } | Op::QNtt { .. } | Op::QChain { .. }) {
        v.valid.push("C28");
    }
    let ik = v.k("instance");
    let (owner, assistant, recipient, sol) = match v.st(&ik) {
        St::Inst { owner, assistant, recipient, sol } => (owner, assistant, recipient, sol),
        _ => {
            v.req(false, &["C28", "C29"], "not the quoter instance");
            return None;
        }
    };
    let auth = |v: &mut V| {
        let a = v.k("authority");
        v.req(a == owner || a == assistant, T, "neither owner nor assistant");
        v.signer("authority", T);
    };
    let chain_of = |v: &mut V| -> Option<(u8, u64, u64, u64, u64)> {
        let k = v.k("registered_chain");
        match v.st(&k) {
            St::RChain { bump, max, base, native, gas } => Some((bump, max, base, native, gas)),
            _ => {
                v.req(false, &["C28", "C29"], "not a registered chain");
                None
            }
        }
    };
    match op {
        Op::QFee => {
            v.is("owner", owner, T);
            v.signer("owner", T);
            let rec = v.k("fee_recipient");
            v.req(rec != Pubkey::default(), T, "default fee recipient");
            v.exp.insert(ik, St::Inst { owner, assistant, recipient: rec, sol });
        }
        Op::QAssist => {
            v.is("owner", owner, T);
            v.signer("owner", T);
            let a = v.k("assistant");
            v.exp.insert(ik, St::Inst { owner, assistant: if a == QUOTER { Pubkey::default() } else { a }, recipient, sol });
        }
        Op::QChain { chain } => {
            auth(v);
            v.payer("authority");
            v.sys();
            let (k, bump) = q_chain(chain);
            v.is("registered_chain", k, T);
            v.vacant("registered_chain", T);
            v.exp.insert(k, St::RChain { bump, max: 0, base: u64::MAX, native: 0, gas: 0 });
        }
        Op::QNtt { prog, idx, gas } => {
            auth(v);
            v.payer("authority");
            v.sys();
            let (k, bump) = q_ntt(&prog);
            v.is("registered_ntt", k, T);
            v.vacant("registered_ntt", T);
            v.exp.insert(k, St::RNtt { bump, idx, gas });
        }
        Op::QDereg { prog } => {
            auth(v);
            v.sys();
            let (k, _) = q_ntt(&prog);
            v.is("registered_ntt", k, T);
            let is = matches!(v.st(&k), St::RNtt { .. });
            v.req(is, T, "not registered");
            v.exp.insert(k, St::None);
            v.lam.insert(k, 0);
            let a = v.k("authority");
            v.lam.insert(a, v.pre.lamports(&a) + v.pre.lamports(&k));
        }
        Op::QSol { price } => {
            auth(v);
            v.req(price != 0, T, "zero price");
            v.exp.insert(ik, St::Inst { owner, assistant, recipient, sol: price });
        }
        Op::QPrices { native, gas } => {
            auth(v);
            let (bump, max, base, _, _) = chain_of(v)?;
            v.exp.insert(v.k("registered_chain"), St::RChain { bump, max, base, native, gas });
        }
        Op::QParams { max, base } => {
            auth(v);
            let (bump, _, _, native, gas) = chain_of(v)?;
            v.exp.insert(v.k("registered_chain"), St::RChain { bump, max, base, native, gas });
        }
        Op::QClose => {
            auth(v);
            v.sys();
            v.is("fee_recipient", recipient, T);
            if v.pre.get(&recipient).executable() || solana_sdk::sysvar::is_sysvar_id(&recipient) {
                v.either = true; // the runtime does not let such an account be paid
            }
            let k = v.k("relay_request");
            let is = matches!(v.st(&k), St::RReq { .. });
            v.req(is, T, "not a relay request");
            v.exp.insert(k, St::None);
            v.lam.insert(k, 0);
            v.lam.insert(recipient, v.pre.lamports(&recipient) + v.pre.lamports(&k));
        }
        Op::QReq { dropoff, max_fee } => {
            const R: Tags = &["C28"];
            v.payer("payer");
            v.sys();
            v.req(sol != 0, R, "no SOL price");
            let ok = v.k("outbox_item");
            let ia = v.pre.get(&ok);
            let nk = v.k("registered_ntt");
            v.is("registered_ntt", q_ntt(ia.owner()).0, R);
            let (idx, cost) = match v.st(&nk) {
                St::RNtt { idx, gas, .. } => (idx, gas),
                _ => {
                    v.req(false, R, "deployment not registered");
                    return None;
                }
            };
            let it = match Outbox::parse(ia.data()) {
                Some(o) => o,
                None => {
                    v.req(false, R, "not an outbound item");
                    return None;
                }
            };
            v.req(idx < 128 && it.released & (1u128 << idx) != 0, R, "not sent by the Wormhole transceiver");
            v.is("registered_chain", q_chain(it.chain).0, &["C28"]);
            let (_, max, base, native, gas) = chain_of(v)?;
            v.req(base != u64::MAX, R, "chain disabled");
            v.req(dropoff <= max, R, "drop-off too large");
            let rk = q_request(&ok);
            v.is("relay_request", rk, R);
            v.vacant("relay_request", R);
            let fee = quote(dropoff, gas, cost, native, base, sol);
            let Some(fee) = fee else {
                v.req(false, R, "overflow");
                return None;
            };
            let total = fee.max(rent_for(16));
            v.req(total <= max_fee, R, "fee above the caller's maximum");
            let payer = v.k("payer");
            let early = v.pre.lamports(&rk) != 0;
            let purse = v.pre.lamports(&payer);
            v.req(early || purse >= total, R, "the payer does not have the fee");
            if (early || purse >= total) && purse < total.saturating_add(10_000_000) {
                v.either = true;
            }
            v.class = if fee > rent_for(16) { "fee above rent" } else { "fee is rent" };
            v.exp.insert(rk, St::RReq { dropoff });
            // who gets the benefit of SOL sent to the address beforehand is not specified
            v.lam.insert(rk, if early { u64::MAX } else { total });
            v.lam.insert(payer, if early { u64::MAX } else { v.pre.lamports(&payer).saturating_sub(total) });
            v.floor.insert(rk, total);
            v.floor.insert(payer, purse.saturating_sub(total));
        }
        _ => unreachable!(),
    }
    Some(())
}

/// The documented price formula with its roundings; None if it overflows.
pub fn quote(dropoff: u64, gas_price: u64, gas_cost: u32, native: u64, base: u64, sol: u64) -> Option<u64> {
    const G: u128 = 1_000_000_000;
    if sol == 0 {
        return None;
    }
    let f = |x: u128| u64::try_from(x).ok();
    let gas = f(gas_price as u128 * gas_cost as u128 / G)?;
    let target = dropoff.checked_add(gas)?;
    let usd = f(native as u128 * target as u128 / G)?.checked_add(base)?;
    f(usd as u128 * G / sol as u128)
}

fn gov_spec(v: &mut V) -> Option<()> {
    const T: Tags = &["C30"];
    v.valid = vec!["C30", "C31"];
    v.payer("payer");
    v.sys();
    v.is("governance", gov(), T);
    let vk = v.k("vaa");
    let va = v.pre.get(&vk);
    v.req(*va.owner() == CORE_BRIDGE, T, "not verified by the core bridge");
    let p = match Posted::parse(va.data()) {
        Some(p) => p,
        None => {
            v.req(false, T, "not a posted message");
            return None;
        }
    };
    v.req(&p.magic == b"vaa", T, "not a verified message");
    v.req(p.chain == 1, T, "not from Solana");
    v.req(p.emitter == GOV_EMITTER, T, "not from the governance emitter");
    let (m, canonical) = match GovMsg::decode(&p.payload) {
        Ok(m) => m,
        Err(t) => {
            v.rej.push((t, "malformed or foreign governance packet".into()));
            return None;
        }
    };
    if !canonical {
        v.either = true;
    }
    v.req(m.gov == GOV, T, "another governance program");
    let (rk, bump) = gov_replay(p.chain, &p.emitter, p.sequence);
    v.is("replay", rk, T);
    v.vacant("replay", T);
    let pk = v.k("program");
    v.req(v.pre.get(&pk).executable(), &[], "program slot not executable");
    // the instruction to execute
    let payer = v.k("payer");
    let mut metas: Vec<AccountMeta> = m
        .accounts
        .iter()
        .map(|(k, s, w)| {
            let key = if k.to_bytes() == GOV_OWNER {
                gov()
            } else if k.to_bytes() == GOV_PAYER {
                payer
            } else {
                *k
            };
            AccountMeta { pubkey: key, is_signer: *s, is_writable: *w }
        })
        .collect();
    // the runtime merges the privileges of repeated accounts
    let copy = metas.clone();
    for x in metas.iter_mut() {
        x.is_signer = copy.iter().any(|y| y.pubkey == x.pubkey && y.is_signer);
        x.is_writable = copy.iter().any(|y| y.pubkey == x.pubkey && y.is_writable);
    }
    let all = v.call.metas();
    let avail = |k: &Pubkey| all.iter().any(|x| x.pubkey == *k);
    let can_sign = |k: &Pubkey| *k == gov() || all.iter().any(|x| x.pubkey == *k && x.is_signer);
    let can_write = |k: &Pubkey| all.iter().any(|x| x.pubkey == *k && x.is_writable);
    v.req(avail(&m.program) && v.pre.get(&m.program).executable(), &[], "target not available");
    for x in &metas {
        v.req(avail(&x.pubkey), &[], "account not supplied");
        v.req(!x.is_signer || can_sign(&x.pubkey), &["C31"], "missing signature");
        v.req(!x.is_writable || can_write(&x.pubkey), &["C31"], "missing write privilege");
    }
    if let Some(inner) = &v.call.inner {
        // a governed program of this repository: its own rules apply on top
        let r = spec(v.pre, inner);
        v.class = "governs the manager";
        v.either |= r.either;
        v.rej.extend(r.rej);
        v.exp.extend(r.exp);
    }
    v.exp.insert(rk, St::Replay { bump });
    v.cpi = Some((m.program, metas, m.data));
    Some(())
}
