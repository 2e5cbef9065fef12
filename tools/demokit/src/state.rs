//! Account layouts, decoded by hand from raw bytes (independently of the code
//! under test, so that a change of what is stored is visible).
use crate::keys::*;
use solana_sdk::{account::{AccountSharedData, ReadableAccount}, hash::hash, pubkey::Pubkey};

pub fn disc(kind: &str, name: &str) -> [u8; 8] {
    hash(format!("{kind}:{name}").as_bytes()).to_bytes()[..8].try_into().unwrap()
}

macro_rules! discs {
    ($($f:ident = $n:expr),* $(,)?) => {
        pub struct Discs { $(pub $f: [u8; 8],)* }
        pub fn d() -> &'static Discs {
            static D: std::sync::OnceLock<Discs> = std::sync::OnceLock::new();
            D.get_or_init(|| Discs { $($f: disc("account", $n),)* })
        }
    };
}
discs! {
    config = "Config", outbox = "OutboxItem", inbox = "InboxItem", orl = "OutboxRateLimit", irl = "InboxRateLimit",
    peer = "NttManagerPeer", xpeer = "TransceiverPeer", reg = "RegisteredTransceiver", lut = "LUT",
    vtm = "ValidatedTransceiverMessage", inst = "Instance", rchain = "RegisteredChain", rntt = "RegisteredNtt",
    rreq = "RelayRequest", replay = "ReplayProtection", counter = "Counter",
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().ok()?))
    }
    pub fn u16be(&mut self) -> Option<u16> {
        Some(u16::from_be_bytes(self.take(2)?.try_into().ok()?))
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().ok()?))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().ok()?))
    }
    pub fn u64be(&mut self) -> Option<u64> {
        Some(u64::from_be_bytes(self.take(8)?.try_into().ok()?))
    }
    pub fn i64(&mut self) -> Option<i64> {
        Some(self.u64()? as i64)
    }
    pub fn u128(&mut self) -> Option<u128> {
        Some(u128::from_le_bytes(self.take(16)?.try_into().ok()?))
    }
    pub fn b32(&mut self) -> Option<[u8; 32]> {
        self.take(32)?.try_into().ok()
    }
    pub fn pk(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.b32()?))
    }
    pub fn boolean(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn disc(&mut self, d: [u8; 8]) -> Option<()> {
        (self.take(8)? == d).then_some(())
    }
}

pub fn short(k: &[u8]) -> String {
    k.iter().take(6).map(|b| format!("{b:02x}")).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Config {
    pub bump: u8,
    pub owner: Pubkey,
    pub pending: Option<Pubkey>,
    pub mint: Pubkey,
    pub token_program: Pubkey,
    pub mode: u8,
    pub chain: u16,
    pub next_id: u8,
    pub threshold: u8,
    pub enabled: u128,
    pub paused: bool,
    pub custody: Pubkey,
}
impl Config {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut r = Rd(b);
        r.disc(d().config)?;
        Some(Config {
            bump: r.u8()?,
            owner: r.pk()?,
            pending: match r.u8()? {
                0 => None,
                1 => Some(r.pk()?),
                _ => return None,
            },
            mint: r.pk()?,
            token_program: r.pk()?,
            mode: r.u8().filter(|m| *m < 2)?,
            chain: r.u16()?,
            next_id: r.u8()?,
            threshold: r.u8()?,
            enabled: r.u128()?,
            paused: r.boolean()?,
            custody: r.pk()?,
        })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = d().config.to_vec();
        v.push(self.bump);
        v.extend_from_slice(self.owner.as_ref());
        match self.pending {
            None => v.push(0),
            Some(p) => {
                v.push(1);
                v.extend_from_slice(p.as_ref())
            }
        }
        v.extend_from_slice(self.mint.as_ref());
        v.extend_from_slice(self.token_program.as_ref());
        v.push(self.mode);
        v.extend_from_slice(&self.chain.to_le_bytes());
        v.push(self.next_id);
        v.push(self.threshold);
        v.extend_from_slice(&self.enabled.to_le_bytes());
        v.push(self.paused as u8);
        v.extend_from_slice(self.custody.as_ref());
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rate {
    pub limit: u64,
    pub cap: u64,
    pub ts: i64,
}
pub const DAY: i64 = 86400;
impl Rate {
    pub fn rd(r: &mut Rd) -> Option<Self> {
        Some(Rate { limit: r.u64()?, cap: r.u64()?, ts: r.i64()? })
    }
    pub fn fresh(limit: u64) -> Self {
        Rate { limit, cap: limit, ts: 0 }
    }
    pub fn at(&self, now: i64) -> u64 {
        let el = (now as i128 - self.ts as i128).max(0) as u128;
        let c = self.cap as u128 + el * self.limit as u128 / DAY as u128;
        c.min(self.limit as u128) as u64
    }
    /// Capacity if `a` fits, else None.
    pub fn consume(&self, a: u64, now: i64) -> Option<Rate> {
        let c = self.at(now);
        (c >= a).then(|| Rate { limit: self.limit, cap: c - a, ts: now })
    }
    pub fn refill(&self, a: u64, now: i64) -> Rate {
        Rate { limit: self.limit, cap: (self.at(now) as u128 + a as u128).min(self.limit as u128) as u64, ts: now }
    }
    pub fn set_limit(&self, l: u64, now: i64) -> Rate {
        let c = self.at(now) as i128 + (l as i128 - self.limit as i128);
        Rate { limit: l, cap: c.clamp(0, l as i128) as u64, ts: now }
    }
    /// What an observer sees: the limit and the capacity now and over the
    /// following day (the stored timestamp itself is representation).
    pub fn view(&self, now: i64) -> (u64, Vec<u64>) {
        (self.limit, [0, 1, 7, 3600, DAY / 3, DAY / 2, DAY - 1, DAY].iter().map(|x| self.at(now + x)).collect())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outbox {
    pub amount: u64,
    pub decimals: u8,
    pub sender: Pubkey,
    pub chain: u16,
    pub manager: [u8; 32],
    pub to: [u8; 32],
    pub release: i64,
    pub released: u128,
}
impl Outbox {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut r = Rd(b);
        r.disc(d().outbox)?;
        Some(Outbox { amount: r.u64()?, decimals: r.u8()?, sender: r.pk()?, chain: r.u16()?, manager: r.b32()?, to: r.b32()?, release: r.i64()?, released: r.u128()? })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = d().outbox.to_vec();
        v.extend_from_slice(&self.amount.to_le_bytes());
        v.push(self.decimals);
        v.extend_from_slice(self.sender.as_ref());
        v.extend_from_slice(&self.chain.to_le_bytes());
        v.extend_from_slice(&self.manager);
        v.extend_from_slice(&self.to);
        v.extend_from_slice(&self.release.to_le_bytes());
        v.extend_from_slice(&self.released.to_le_bytes());
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    NotApproved,
    After(i64),
    Released,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Inbox {
    pub init: bool,
    pub bump: u8,
    pub amount: u64,
    pub recipient: Pubkey,
    pub votes: u128,
    pub status: Status,
}
impl Inbox {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut r = Rd(b);
        r.disc(d().inbox)?;
        Some(Inbox {
            init: r.boolean()?,
            bump: r.u8()?,
            amount: r.u64()?,
            recipient: r.pk()?,
            votes: r.u128()?,
            status: match r.u8()? {
                0 => Status::NotApproved,
                1 => Status::After(r.i64()?),
                2 => Status::Released,
                _ => return None,
            },
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Vtm {
    pub from_chain: u16,
    pub src_mgr: [u8; 32],
    pub rcpt_mgr: [u8; 32],
    pub msg: Msg,
}
/// The manager message (a native token transfer).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Msg {
    pub id: [u8; 32],
    pub sender: [u8; 32],
    pub amount: u64,
    pub decimals: u8,
    pub token: [u8; 32],
    pub to: [u8; 32],
    pub to_chain: u16,
}
impl Msg {
    /// Documented wire format of the manager message.
    pub fn wire(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&self.id);
        v.extend_from_slice(&self.sender);
        v.extend_from_slice(&79u16.to_be_bytes());
        v.extend_from_slice(&[0x99, 0x4e, 0x54, 0x54]);
        v.push(self.decimals);
        v.extend_from_slice(&self.amount.to_be_bytes());
        v.extend_from_slice(&self.token);
        v.extend_from_slice(&self.to);
        v.extend_from_slice(&self.to_chain.to_be_bytes());
        v
    }
    pub fn digest(&self, from_chain: u16) -> [u8; 32] {
        let mut v = from_chain.to_be_bytes().to_vec();
        v.extend(self.wire());
        solana_sdk::keccak::hash(&v).to_bytes()
    }
    pub fn inbox(&self, from_chain: u16) -> (Pubkey, u8) {
        inbox_item(&self.digest(from_chain))
    }
    pub fn transceiver_wire(&self, src: &[u8; 32], rcpt: &[u8; 32], payload: &[u8]) -> Vec<u8> {
        let mut v = vec![0x99, 0x45, 0xff, 0x10];
        v.extend_from_slice(src);
        v.extend_from_slice(rcpt);
        let w = self.wire();
        v.extend_from_slice(&(w.len() as u16).to_be_bytes());
        v.extend(w);
        v.extend_from_slice(&(payload.len() as u16).to_be_bytes());
        v.extend_from_slice(payload);
        v
    }
}
impl Vtm {
    pub const LEN: usize = 8 + 2 + 64 + 32 + 32 + 9 + 32 + 2 + 32;
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut r = Rd(b);
        r.disc(d().vtm)?;
        let from_chain = r.u16()?;
        let (src_mgr, rcpt_mgr) = (r.b32()?, r.b32()?);
        let (id, sender, amount, decimals, token, to_chain, to) = (r.b32()?, r.b32()?, r.u64()?, r.u8()?, r.b32()?, r.u16()?, r.b32()?);
        Some(Vtm { from_chain, src_mgr, rcpt_mgr, msg: Msg { id, sender, amount, decimals, token, to, to_chain } })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = d().vtm.to_vec();
        v.extend_from_slice(&self.from_chain.to_le_bytes());
        v.extend_from_slice(&self.src_mgr);
        v.extend_from_slice(&self.rcpt_mgr);
        v.extend_from_slice(&self.msg.id);
        v.extend_from_slice(&self.msg.sender);
        v.extend_from_slice(&self.msg.amount.to_le_bytes());
        v.push(self.msg.decimals);
        v.extend_from_slice(&self.msg.token);
        v.extend_from_slice(&self.msg.to_chain.to_le_bytes());
        v.extend_from_slice(&self.msg.to);
        v
    }
}

/// A message or verified VAA account of the core bridge.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Posted {
    pub magic: [u8; 3],
    pub version: u8,
    pub consistency: u8,
    pub time: u32,
    pub sigs: Pubkey,
    pub posted_time: u32,
    pub nonce: u32,
    pub sequence: u64,
    pub chain: u16,
    pub emitter: [u8; 32],
    pub payload: Vec<u8>,
}
impl Posted {
    pub fn parse(b: &[u8]) -> Option<Self> {
        let mut r = Rd(b);
        let magic = r.take(3)?.try_into().ok()?;
        if &magic != b"msg" && &magic != b"vaa" && &magic != b"msu" {
            return None;
        }
        let (version, consistency, time, sigs, posted_time, nonce, sequence, chain, emitter) = (r.u8()?, r.u8()?, r.u32()?, r.pk()?, r.u32()?, r.u32()?, r.u64()?, r.u16()?, r.b32()?);
        let n = r.u32()? as usize;
        Some(Posted { magic, version, consistency, time, sigs, posted_time, nonce, sequence, chain, emitter, payload: r.take(n)?.to_vec() })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.magic.to_vec();
        v.push(self.version);
        v.push(self.consistency);
        v.extend_from_slice(&self.time.to_le_bytes());
        v.extend_from_slice(self.sigs.as_ref());
        v.extend_from_slice(&self.posted_time.to_le_bytes());
        v.extend_from_slice(&self.nonce.to_le_bytes());
        v.extend_from_slice(&self.sequence.to_le_bytes());
        v.extend_from_slice(&self.chain.to_le_bytes());
        v.extend_from_slice(&self.emitter);
        v.extend_from_slice(&(self.payload.len() as u32).to_le_bytes());
        v.extend_from_slice(&self.payload);
        v
    }
    pub fn vaa(chain: u16, emitter: [u8; 32], sequence: u64, payload: Vec<u8>) -> Self {
        Posted { magic: *b"vaa", version: 1, consistency: 32, time: 1, sigs: Pubkey::default(), posted_time: 2, nonce: 0, sequence, chain, emitter, payload }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub program: Pubkey,
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub delegated: u64,
    pub state: u8,
    pub withheld: u64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MintS {
    pub program: Pubkey,
    pub authority: Option<Pubkey>,
    pub supply: u64,
    pub decimals: u8,
}

/// Everything we know how to read.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum St {
    None,
    Config(Config),
    Orl(Rate),
    Irl { bump: u8, rate: Rate },
    Outbox(Outbox),
    Inbox(Inbox),
    Peer { bump: u8, addr: [u8; 32], decimals: u8 },
    XPeer { prog: Pubkey, bump: u8, addr: [u8; 32] },
    Reg { bump: u8, id: u8, addr: Pubkey },
    Lut { bump: u8, addr: Pubkey },
    Vtm { prog: Pubkey, v: Vtm },
    Posted(Posted),
    Seq(u64),
    Tok(Tok),
    Mint(MintS),
    ProgData { authority: Option<Pubkey> },
    Table { authority: Option<Pubkey>, addrs: Vec<Pubkey> },
    Counter(u64),
    Inst { owner: Pubkey, assistant: Pubkey, recipient: Pubkey, sol: u64 },
    RChain { bump: u8, max: u64, base: u64, native: u64, gas: u64 },
    RNtt { bump: u8, idx: u8, gas: u32 },
    RReq { dropoff: u64 },
    Replay { bump: u8 },
    Raw { owner: Pubkey, data: Vec<u8> },
}

fn parse_tok(prog: Pubkey, b: &[u8]) -> Option<St> {
    use solana_sdk::program_pack::Pack;
    let multisig = b.len() == 355;
    let is_mint = b.len() == 82 || (b.len() > 165 && prog == SPL22 && b[165] == 1);
    let is_acc = b.len() == 165 || (b.len() > 165 && prog == SPL22 && b[165] == 2);
    if multisig {
        return None;
    }
    if is_mint {
        let m = spl_token::state::Mint::unpack(&b[..82]).ok()?;
        return Some(St::Mint(MintS { program: prog, authority: m.mint_authority.into(), supply: m.supply, decimals: m.decimals }));
    }
    if is_acc {
        let a = spl_token::state::Account::unpack(&b[..165]).ok()?;
        let mut withheld = 0;
        if b.len() > 165 {
            use spl_token_2022::extension::{transfer_fee::TransferFeeAmount, BaseStateWithExtensions, StateWithExtensions};
            if let Ok(s) = StateWithExtensions::<spl_token_2022::state::Account>::unpack(b) {
                if let Ok(e) = s.get_extension::<TransferFeeAmount>() {
                    withheld = e.withheld_amount.into();
                }
            }
        }
        return Some(St::Tok(Tok {
            program: prog,
            mint: a.mint,
            owner: a.owner,
            amount: a.amount,
            delegate: a.delegate.into(),
            delegated: a.delegated_amount,
            state: a.state as u8,
            withheld,
        }));
    }
    None
}

fn parse_inner(owner: Pubkey, b: &[u8]) -> Option<St> {
    let mut r = Rd(b);
    if owner == NTT || owner == XCVR {
        let k: [u8; 8] = r.take(8)?.try_into().ok()?;
        let dd = d();
        return Some(if k == dd.config {
            St::Config(Config::parse(b)?)
        } else if k == dd.orl {
            St::Orl(Rate::rd(&mut r)?)
        } else if k == dd.irl {
            St::Irl { bump: r.u8()?, rate: Rate::rd(&mut r)? }
        } else if k == dd.outbox {
            St::Outbox(Outbox::parse(b)?)
        } else if k == dd.inbox {
            St::Inbox(Inbox::parse(b)?)
        } else if k == dd.peer {
            St::Peer { bump: r.u8()?, addr: r.b32()?, decimals: r.u8()? }
        } else if k == dd.xpeer {
            St::XPeer { prog: owner, bump: r.u8()?, addr: r.b32()? }
        } else if k == dd.reg {
            St::Reg { bump: r.u8()?, id: r.u8()?, addr: r.pk()? }
        } else if k == dd.lut {
            St::Lut { bump: r.u8()?, addr: r.pk()? }
        } else if k == dd.vtm {
            St::Vtm { prog: owner, v: Vtm::parse(b)? }
        } else {
            return None;
        });
    }
    if owner == CORE_BRIDGE {
        if b.len() == 8 {
            return Some(St::Seq(r.u64()?));
        }
        return Posted::parse(b).map(St::Posted);
    }
    if owner == SPL || owner == SPL22 {
        return parse_tok(owner, b);
    }
    if owner == loader() {
        let t = r.u32()?;
        if t == 3 {
            r.u64()?;
            return Some(St::ProgData {
                authority: match r.u8()? {
                    0 => None,
                    _ => Some(r.pk()?),
                },
            });
        }
        return None;
    }
    if owner == LUT_PROGRAM {
        use solana_sdk::address_lookup_table::state::AddressLookupTable;
        let t = AddressLookupTable::deserialize(b).ok()?;
        return Some(St::Table { authority: t.meta.authority, addrs: t.addresses.to_vec() });
    }
    if owner == HOOK {
        r.disc(d().counter)?;
        return Some(St::Counter(r.u64()?));
    }
    if owner == QUOTER {
        let k: [u8; 8] = r.take(8)?.try_into().ok()?;
        let dd = d();
        return Some(if k == dd.inst {
            St::Inst { owner: r.pk()?, assistant: r.pk()?, recipient: r.pk()?, sol: r.u64()? }
        } else if k == dd.rchain {
            St::RChain { bump: r.u8()?, max: r.u64()?, base: r.u64()?, native: r.u64()?, gas: r.u64()? }
        } else if k == dd.rntt {
            St::RNtt { bump: r.u8()?, idx: r.u8()?, gas: r.u32()? }
        } else if k == dd.rreq {
            St::RReq { dropoff: r.u64()? }
        } else {
            return None;
        });
    }
    if owner == GOV {
        r.disc(d().replay)?;
        return Some(St::Replay { bump: r.u8()? });
    }
    None
}

pub fn parse(a: &AccountSharedData) -> St {
    if a.data().is_empty() && *a.owner() == SYSTEM {
        return St::None;
    }
    parse_inner(*a.owner(), a.data()).unwrap_or_else(|| St::Raw { owner: *a.owner(), data: a.data().to_vec() })
}

impl St {
    pub fn kind(&self) -> &'static str {
        match self {
            St::None => "none",
            St::Config(_) => "config",
            St::Orl(_) => "orl",
            St::Irl { .. } => "irl",
            St::Outbox(_) => "outbox",
            St::Inbox(_) => "inbox",
            St::Peer { .. } => "peer",
            St::XPeer { .. } => "xpeer",
            St::Reg { .. } => "reg",
            St::Lut { .. } => "lut",
            St::Vtm { .. } => "vtm",
            St::Posted(_) => "posted",
            St::Seq(_) => "seq",
            St::Tok(_) => "tok",
            St::Mint(_) => "mint",
            St::ProgData { .. } => "progdata",
            St::Table { .. } => "table",
            St::Counter(_) => "counter",
            St::Inst { .. } => "inst",
            St::RChain { .. } => "rchain",
            St::RNtt { .. } => "rntt",
            St::RReq { .. } => "rreq",
            St::Replay { .. } => "replay",
            St::Raw { .. } => "raw",
        }
    }
    /// Observable fields, for field-wise comparison.
    pub fn fields(&self, now: i64) -> Vec<(&'static str, String)> {
        macro_rules! f { ($($n:ident : $e:expr),* $(,)?) => { vec![$((stringify!($n), format!("{:?}", $e))),*] }; }
        match self {
            St::None => vec![],
            St::Config(c) => f!(bump: c.bump, owner: c.owner, pending: c.pending, mint: c.mint, token_program: c.token_program, mode: c.mode, chain: c.chain,
                next_id: c.next_id, threshold: c.threshold, enabled: c.enabled, paused: c.paused, custody: c.custody),
            St::Orl(r) => f!(limit: r.view(now).0, capacity: r.view(now).1),
            St::Irl { bump, rate } => f!(bump: bump, limit: rate.view(now).0, capacity: rate.view(now).1),
            St::Outbox(o) => f!(amount: (o.amount, o.decimals), sender: o.sender, chain: o.chain, manager: o.manager, to: o.to, release: o.release, released: o.released),
            St::Inbox(i) => f!(init: i.init, bump: i.bump, amount: i.amount, recipient: i.recipient, votes: i.votes, status: i.status),
            St::Peer { bump, addr, decimals } => f!(bump: bump, addr: addr, decimals: decimals),
            St::XPeer { prog, bump, addr } => f!(prog: prog, bump: bump, addr: addr),
            St::Reg { bump, id, addr } => f!(bump: bump, id: id, addr: addr),
            St::Lut { bump, addr } => f!(bump: bump, addr: addr),
            St::Vtm { prog, v } => f!(prog: prog, from_chain: v.from_chain, src_mgr: v.src_mgr, rcpt_mgr: v.rcpt_mgr, msg: v.msg),
            St::Posted(p) => f!(magic: p.magic, consistency: p.consistency, sequence: p.sequence, chain: p.chain, emitter: p.emitter, payload: p.payload, nonce: p.nonce),
            St::Seq(s) => f!(value: s),
            St::Tok(t) => f!(mint: t.mint, owner: t.owner, amount: t.amount, delegate: t.delegate, delegated: t.delegated, state: t.state, withheld: t.withheld),
            St::Mint(m) => f!(authority: m.authority, supply: m.supply, decimals: m.decimals),
            St::ProgData { authority } => f!(authority: authority),
            St::Table { authority, addrs } => {
                let mut a = addrs.clone();
                a.sort();
                a.dedup();
                f!(authority: authority, addrs: a)
            }
            St::Counter(c) => f!(count: c),
            St::Inst { owner, assistant, recipient, sol } => f!(owner: owner, assistant: assistant, recipient: recipient, sol: sol),
            St::RChain { bump, max, base, native, gas } => f!(bump: bump, max: max, base: base, native: native, gas: gas),
            St::RNtt { bump, idx, gas } => f!(bump: bump, idx: idx, gas: gas),
            St::RReq { dropoff } => f!(dropoff: dropoff),
            St::Replay { bump } => f!(bump: bump),
            St::Raw { owner, data } => f!(owner: owner, data: data),
        }
    }
    pub fn diff(&self, other: &St, now: i64) -> Vec<(&'static str, String)> {
        if self == other {
            return vec![];
        }
        if self.kind() != other.kind() {
            return vec![("kind", format!("expected {:?}, found {:?}", self, other))];
        }
        let (a, b) = (self.fields(now), other.fields(now));
        a.into_iter()
            .zip(b)
            .filter(|(x, y)| x.1 != y.1)
            .map(|(x, y)| (x.0, format!("expected {}, found {}", x.1, y.1)))
            .collect()
    }
}

// Exact arithmetic for amounts --------------------------------------------------

pub fn pow10(n: u32) -> Option<u128> {
    10u128.checked_pow(n)
}
/// Documented scaling: floor down, exact up; None if it cannot be represented.
pub fn scale(a: u64, from: u8, to: u8) -> Option<u64> {
    if from >= to {
        match pow10((from - to) as u32) {
            Some(p) => Some((a as u128 / p) as u64),
            None => Some(0),
        }
    } else {
        if a == 0 && to - from <= 19 {
            return Some(0);
        }
        let p = pow10((to - from) as u32)?;
        (a as u128).checked_mul(p)?.try_into().ok()
    }
}
/// True when the implementation may refuse because the factor 10^n is not a u64.
pub fn factor_overflows(from: u8, to: u8) -> bool {
    from.abs_diff(to) > 19
}
