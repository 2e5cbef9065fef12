//! Instruction builders. A `Call` names every account slot, so that the
//! oracle can read them by role and the workload can substitute them.
use crate::{keys::*, state::*};
use solana_sdk::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TArgs {
    pub amount: u64,
    pub chain: u16,
    pub to: [u8; 32],
    pub queue: bool,
}
impl TArgs {
    pub fn digest(&self) -> [u8; 32] {
        solana_sdk::keccak::hashv(&[&self.amount.to_be_bytes(), &self.chain.to_be_bytes(), &self.to, &[self.queue as u8]]).to_bytes()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Init { chain: u16, limit: u64, mode: u8 },
    Transfer { burn: bool, a: TArgs },
    Redeem,
    ReleaseIn { mint: bool, revert: bool },
    ReleaseOut { prog: Pubkey, revert: bool },
    Mark,
    Receive { prog: Pubkey },
    SetXPeer { prog: Pubkey, chain: u16, addr: [u8; 32] },
    BcId { prog: Pubkey },
    BcPeer { prog: Pubkey, chain: u16 },
    SetPeer { chain: u16, addr: [u8; 32], limit: u64, dec: u8 },
    Register,
    SetOut { limit: u64 },
    SetIn { limit: u64, chain: u16 },
    Pause(bool),
    TransferOwn,
    TransferOwn1,
    Claim,
    InitLut { slot: u64 },
    QInit,
    QFee,
    QAssist,
    QChain { chain: u16 },
    QNtt { prog: Pubkey, idx: u8, gas: u32 },
    QDereg { prog: Pubkey },
    QSol { price: u64 },
    QPrices { native: u64, gas: u64 },
    QParams { max: u64, base: u64 },
    QReq { dropoff: u64, max_fee: u64 },
    QClose,
    Gov,
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Init { .. } => "initialize",
            Op::Transfer { burn: true, .. } => "transfer_burn",
            Op::Transfer { .. } => "transfer_lock",
            Op::Redeem => "redeem",
            Op::ReleaseIn { mint: true, .. } => "release_inbound_mint",
            Op::ReleaseIn { .. } => "release_inbound_unlock",
            Op::ReleaseOut { .. } => "release_wormhole_outbound",
            Op::Mark => "mark_outbox_item_as_released",
            Op::Receive { .. } => "receive_wormhole_message",
            Op::SetXPeer { .. } => "set_wormhole_peer",
            Op::BcId { .. } => "broadcast_wormhole_id",
            Op::BcPeer { .. } => "broadcast_wormhole_peer",
            Op::SetPeer { .. } => "set_peer",
            Op::Register => "register_transceiver",
            Op::SetOut { .. } => "set_outbound_limit",
            Op::SetIn { .. } => "set_inbound_limit",
            Op::Pause(_) => "set_paused",
            Op::TransferOwn => "transfer_ownership",
            Op::TransferOwn1 => "transfer_ownership_one_step_unchecked",
            Op::Claim => "claim_ownership",
            Op::InitLut { .. } => "initialize_lut",
            Op::QInit => "initialize",
            Op::QFee => "set_fee_recipient",
            Op::QAssist => "set_assistant",
            Op::QChain { .. } => "register_chain",
            Op::QNtt { .. } => "register_ntt",
            Op::QDereg { .. } => "deregister_ntt",
            Op::QSol { .. } => "update_sol_price",
            Op::QPrices { .. } => "update_chain_prices",
            Op::QParams { .. } => "update_chain_params",
            Op::QReq { .. } => "request_relay",
            Op::QClose => "close_relay",
            Op::Gov => "governance",
        }
    }
    pub fn label(&self) -> String {
        match self {
            Op::ReleaseOut { prog, .. } | Op::Receive { prog } | Op::SetXPeer { prog, .. } | Op::BcId { prog } | Op::BcPeer { prog, .. } if *prog == XCVR => {
                format!("standalone:{}", self.name())
            }
            o if o.program() == QUOTER => format!("quoter:{}", self.name()),
            _ => self.name().to_string(),
        }
    }
    pub fn program(&self) -> Pubkey {
        match self {
            Op::ReleaseOut { prog, .. } | Op::Receive { prog } | Op::SetXPeer { prog, .. } | Op::BcId { prog } | Op::BcPeer { prog, .. } => *prog,
            Op::QInit | Op::QFee | Op::QAssist | Op::QChain { .. } | Op::QNtt { .. } | Op::QDereg { .. } | Op::QSol { .. } | Op::QPrices { .. } | Op::QParams { .. } | Op::QReq { .. } | Op::QClose => QUOTER,
            Op::Gov => GOV,
            _ => NTT,
        }
    }
    pub fn data(&self) -> Vec<u8> {
        let mut v = disc("global", self.name()).to_vec();
        let mut e = |b: &[u8]| v.extend_from_slice(b);
        match self {
            Op::Init { chain, limit, mode } => {
                e(&chain.to_le_bytes());
                e(&limit.to_le_bytes());
                e(&[*mode])
            }
            Op::Transfer { a, .. } => {
                e(&a.amount.to_le_bytes());
                e(&a.chain.to_le_bytes());
                e(&a.to);
                e(&[a.queue as u8])
            }
            Op::ReleaseIn { revert, .. } | Op::ReleaseOut { revert, .. } => e(&[*revert as u8]),
            Op::SetXPeer { chain, addr, .. } => {
                e(&chain.to_le_bytes());
                e(addr)
            }
            Op::BcPeer { chain, .. } | Op::QChain { chain } => e(&chain.to_le_bytes()),
            Op::SetPeer { chain, addr, limit, dec } => {
                e(&chain.to_le_bytes());
                e(addr);
                e(&limit.to_le_bytes());
                e(&[*dec])
            }
            Op::SetOut { limit } => e(&limit.to_le_bytes()),
            Op::SetIn { limit, chain } => {
                e(&limit.to_le_bytes());
                e(&chain.to_le_bytes())
            }
            Op::Pause(p) => e(&[*p as u8]),
            Op::InitLut { slot } => e(&slot.to_le_bytes()),
            Op::QNtt { prog, idx, gas } => {
                e(prog.as_ref());
                e(&[*idx]);
                e(&gas.to_le_bytes())
            }
            Op::QDereg { prog } => e(prog.as_ref()),
            Op::QSol { price } => e(&price.to_le_bytes()),
            Op::QPrices { native, gas } => {
                e(&native.to_le_bytes());
                e(&gas.to_le_bytes())
            }
            Op::QParams { max, base } => {
                e(&max.to_le_bytes());
                e(&base.to_le_bytes())
            }
            Op::QReq { dropoff, max_fee } => {
                e(&dropoff.to_le_bytes());
                e(&max_fee.to_le_bytes())
            }
            _ => {}
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub name: &'static str,
    pub key: Pubkey,
    pub s: bool,
    pub w: bool,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub op: Op,
    pub slots: Vec<Slot>,
    pub extra: Vec<AccountMeta>,
    /// call through a (proxy) program which signs with the PDA for these seeds
    pub via: Option<(Pubkey, Vec<Vec<u8>>)>,
    /// how this call was derived (for logs and coverage)
    pub note: String,
    /// governance: the manager call encoded in the message
    pub inner: Option<Box<Call>>,
}

/// slots: "name", "name!" signer, "name+" writable, "name!+" both
fn slots(v: Vec<(&'static str, Pubkey)>) -> Vec<Slot> {
    v.into_iter()
        .map(|(n, key)| {
            let s = n.contains('!');
            let w = n.contains('+');
            Slot { name: n.trim_end_matches(['!', '+']), key, s, w }
        })
        .collect()
}

impl Call {
    pub fn new(op: Op, v: Vec<(&'static str, Pubkey)>) -> Self {
        Call { op, slots: slots(v), extra: vec![], via: None, note: String::new(), inner: None }
    }
    pub fn get(&self, name: &str) -> Pubkey {
        self.slots.iter().find(|s| s.name == name).unwrap_or_else(|| panic!("slot {name}")).key
    }
    pub fn slot(&mut self, name: &str) -> &mut Slot {
        self.slots.iter_mut().find(|s| s.name == name).unwrap_or_else(|| panic!("slot {name}"))
    }
    pub fn with(mut self, name: &str, key: Pubkey) -> Self {
        self.slot(name).key = key;
        self
    }
    pub fn signs(&self, key: &Pubkey) -> bool {
        self.slots.iter().any(|s| s.key == *key && s.s) || self.extra.iter().any(|m| m.pubkey == *key && m.is_signer)
    }
    pub fn metas(&self) -> Vec<AccountMeta> {
        let mut v: Vec<AccountMeta> = self.slots.iter().map(|s| AccountMeta { pubkey: s.key, is_signer: s.s, is_writable: s.w }).collect();
        v.extend(self.extra.iter().cloned());
        v
    }
    pub fn instruction(&self) -> Instruction {
        let metas = self.metas();
        let ix = Instruction { program_id: self.op.program(), accounts: metas.clone(), data: self.op.data() };
        match &self.via {
            None => ix,
            Some((prog, seeds)) => {
                let sr: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
                let signer = if seeds.is_empty() { None } else { Some(pda(prog, &sr).0) };
                let data = crate::svm::proxy_data(&sr, &metas, &ix.data);
                let mut accounts = vec![AccountMeta::new_readonly(ix.program_id, false)];
                accounts.extend(metas.into_iter().map(|mut m| {
                    if Some(m.pubkey) == signer {
                        m.is_signer = false;
                    }
                    m
                }));
                Instruction { program_id: *prog, accounts, data }
            }
        }
    }
}

pub struct Wh(pub Pubkey);
impl Wh {
    pub fn push(&self, v: &mut Vec<(&'static str, Pubkey)>) {
        v.extend([
            ("bridge+", bridge()),
            ("fee_collector+", fee_collector()),
            ("sequence+", sequence(&self.0)),
            ("wormhole_program", CORE_BRIDGE),
            ("system_program", SYSTEM),
            ("clock", CLOCK),
            ("rent", RENT),
        ])
    }
}

pub fn initialize(payer: Pubkey, deployer: Pubkey, mint: Pubkey, tp: Pubkey, chain: u16, limit: u64, mode: u8) -> Call {
    Call::new(
        Op::Init { chain, limit, mode },
        vec![
            ("payer!+", payer),
            ("deployer!", deployer),
            ("program_data", program_data(&NTT)),
            ("config+", config()),
            ("mint", mint),
            ("rate_limit+", outbox_rl()),
            ("token_authority", token_authority()),
            ("custody+", ata(&token_authority(), &mint, &tp)),
            ("token_program", tp),
            ("ata_program", ATA_PROGRAM),
            ("loader", loader()),
            ("system_program", SYSTEM),
        ],
    )
}

#[allow(clippy::too_many_arguments)]
pub fn transfer(burn: bool, a: TArgs, payer: Pubkey, mint: Pubkey, from: Pubkey, owner: Pubkey, tp: Pubkey, item: Pubkey, custody: Pubkey) -> Call {
    let dg = a.digest();
    let chain = a.chain;
    let mut v = vec![
        ("payer!+", payer),
        ("config", config()),
        ("mint+", mint),
        ("from+", from),
        ("token_program", tp),
        ("outbox_item!+", item),
        ("outbox_rate_limit+", outbox_rl()),
        ("custody+", custody),
        ("system_program", SYSTEM),
        ("inbox_rate_limit+", inbox_rl(chain).0),
        ("peer", peer(chain).0),
        ("session_authority", session(&owner, &dg)),
    ];
    if burn {
        v.push(("token_authority", token_authority()));
    }
    Call::new(Op::Transfer { burn, a }, v)
}

pub fn redeem(payer: Pubkey, from_chain: u16, xmsg: Pubkey, xprog: &Pubkey, mint: Pubkey, inbox: Pubkey) -> Call {
    Call::new(
        Op::Redeem,
        vec![
            ("payer!+", payer),
            ("config", config()),
            ("peer", peer(from_chain).0),
            ("transceiver_message", xmsg),
            ("transceiver", registered(xprog).0),
            ("mint", mint),
            ("inbox_item+", inbox),
            ("inbox_rate_limit+", inbox_rl(from_chain).0),
            ("outbox_rate_limit+", outbox_rl()),
            ("system_program", SYSTEM),
        ],
    )
}

#[allow(clippy::too_many_arguments)]
pub fn release_in(mint_mode: bool, revert: bool, payer: Pubkey, inbox: Pubkey, recipient: Pubkey, mint: Pubkey, tp: Pubkey, custody: Pubkey) -> Call {
    Call::new(
        Op::ReleaseIn { mint: mint_mode, revert },
        vec![
            ("payer!+", payer),
            ("config", config()),
            ("inbox_item+", inbox),
            ("recipient+", recipient),
            ("token_authority", token_authority()),
            ("mint+", mint),
            ("token_program", tp),
            ("custody+", custody),
        ],
    )
}

pub fn release_out(prog: Pubkey, revert: bool, payer: Pubkey, item: Pubkey) -> Call {
    let em = emitter(&prog);
    let mut v = vec![
        ("payer!+", payer),
        ("config", config()),
        ("outbox_item+", item),
        ("transceiver", registered(&prog).0),
        ("wormhole_message+", wh_message(&prog, &item)),
        ("emitter", em),
    ];
    Wh(em).push(&mut v);
    if prog != NTT {
        v.push(("manager", NTT));
        v.push(("outbox_item_signer", item_signer(&prog)));
    }
    Call::new(Op::ReleaseOut { prog, revert }, v)
}

pub fn mark(xprog: Pubkey, item: Pubkey) -> Call {
    let mut c = Call::new(
        Op::Mark,
        vec![("signer!", item_signer(&xprog)), ("config", config()), ("outbox_item+", item), ("transceiver", registered(&xprog).0)],
    );
    c.via = Some((xprog, vec![b"outbox_item_signer".to_vec()]));
    c
}

pub fn receive(prog: Pubkey, payer: Pubkey, vaa: Pubkey, chain: u16, id: &[u8; 32]) -> Call {
    Call::new(
        Op::Receive { prog },
        vec![
            ("payer!+", payer),
            ("config", config()),
            ("peer", xpeer(&prog, chain).0),
            ("vaa", vaa),
            ("transceiver_message+", xmsg(&prog, chain, id)),
            ("system_program", SYSTEM),
        ],
    )
}

pub fn set_xpeer(prog: Pubkey, owner: Pubkey, payer: Pubkey, chain: u16, addr: [u8; 32]) -> Call {
    Call::new(
        Op::SetXPeer { prog, chain, addr },
        vec![("config", config()), ("owner!", owner), ("payer!+", payer), ("peer+", xpeer(&prog, chain).0), ("system_program", SYSTEM)],
    )
}

pub fn bc_id(prog: Pubkey, payer: Pubkey, mint: Pubkey, msg: Pubkey) -> Call {
    let em = emitter(&prog);
    let mut v = vec![("payer!+", payer), ("config", config()), ("mint", mint), ("wormhole_message!+", msg), ("emitter", em)];
    Wh(em).push(&mut v);
    Call::new(Op::BcId { prog }, v)
}

pub fn bc_peer(prog: Pubkey, payer: Pubkey, chain: u16, msg: Pubkey) -> Call {
    let em = emitter(&prog);
    let mut v = vec![("payer!+", payer), ("config", config()), ("peer", xpeer(&prog, chain).0), ("wormhole_message!+", msg), ("emitter", em)];
    Wh(em).push(&mut v);
    Call::new(Op::BcPeer { prog, chain }, v)
}

pub fn set_peer(owner: Pubkey, payer: Pubkey, chain: u16, addr: [u8; 32], limit: u64, dec: u8) -> Call {
    Call::new(
        Op::SetPeer { chain, addr, limit, dec },
        vec![("payer!+", payer), ("owner!", owner), ("config", config()), ("peer+", peer(chain).0), ("inbox_rate_limit+", inbox_rl(chain).0), ("system_program", SYSTEM)],
    )
}

pub fn register(owner: Pubkey, payer: Pubkey, x: Pubkey) -> Call {
    Call::new(
        Op::Register,
        vec![("config+", config()), ("owner!", owner), ("payer!+", payer), ("transceiver", x), ("registered_transceiver+", registered(&x).0), ("system_program", SYSTEM)],
    )
}

pub fn set_out(owner: Pubkey, limit: u64) -> Call {
    Call::new(Op::SetOut { limit }, vec![("config", config()), ("owner!", owner), ("rate_limit+", outbox_rl())])
}
pub fn set_in(owner: Pubkey, limit: u64, chain: u16) -> Call {
    Call::new(Op::SetIn { limit, chain }, vec![("config", config()), ("owner!", owner), ("rate_limit+", inbox_rl(chain).0)])
}
pub fn pause(owner: Pubkey, p: bool) -> Call {
    Call::new(Op::Pause(p), vec![("owner!", owner), ("config+", config())])
}
pub fn transfer_own(owner: Pubkey, new: Pubkey, one_step: bool) -> Call {
    Call::new(
        if one_step { Op::TransferOwn1 } else { Op::TransferOwn },
        vec![
            ("config+", config()),
            ("owner!", owner),
            ("new_owner", new),
            ("upgrade_lock", upgrade_lock()),
            ("program_data+", program_data(&NTT)),
            ("loader", loader()),
        ],
    )
}
pub fn claim(new: Pubkey) -> Call {
    Call::new(
        Op::Claim,
        vec![("config+", config()), ("upgrade_lock", upgrade_lock()), ("new_owner!", new), ("program_data+", program_data(&NTT)), ("loader", loader())],
    )
}
pub fn init_lut(payer: Pubkey, slot: u64, c: &Config) -> Call {
    let mut v = vec![
        ("payer!+", payer),
        ("authority", lut_authority()),
        ("lut_address+", lut_table(slot)),
        ("lut+", lut().0),
        ("lut_program", LUT_PROGRAM),
        ("sys0", SYSTEM),
        ("config", config()),
        ("custody", c.custody),
        ("token_program", c.token_program),
        ("mint", c.mint),
        ("token_authority", token_authority()),
        ("outbox_rate_limit", outbox_rl()),
    ];
    Wh(emitter(&NTT)).push(&mut v);
    Call::new(Op::InitLut { slot }, v)
}

// quoter
pub fn q_init(owner: Pubkey, fee: Pubkey) -> Call {
    Call::new(
        Op::QInit,
        vec![("owner!+", owner), ("instance+", q_instance()), ("fee_recipient", fee), ("program_data+", program_data(&QUOTER)), ("system_program", SYSTEM)],
    )
}
pub fn q_fee(owner: Pubkey, fee: Pubkey) -> Call {
    Call::new(Op::QFee, vec![("owner!", owner), ("instance+", q_instance()), ("fee_recipient", fee)])
}
/// assistant == QUOTER means "none"
pub fn q_assist(owner: Pubkey, a: Pubkey) -> Call {
    Call::new(Op::QAssist, vec![("owner!", owner), ("instance+", q_instance()), ("assistant", a)])
}
pub fn q_chain_ix(auth: Pubkey, chain: u16) -> Call {
    Call::new(Op::QChain { chain }, vec![("authority!+", auth), ("instance", q_instance()), ("registered_chain+", q_chain(chain).0), ("system_program", SYSTEM)])
}
pub fn q_ntt_ix(auth: Pubkey, prog: Pubkey, idx: u8, gas: u32) -> Call {
    Call::new(Op::QNtt { prog, idx, gas }, vec![("authority!+", auth), ("instance", q_instance()), ("registered_ntt+", q_ntt(&prog).0), ("system_program", SYSTEM)])
}
pub fn q_dereg(auth: Pubkey, prog: Pubkey) -> Call {
    Call::new(Op::QDereg { prog }, vec![("authority!+", auth), ("instance", q_instance()), ("registered_ntt+", q_ntt(&prog).0), ("system_program", SYSTEM)])
}
pub fn q_sol(auth: Pubkey, price: u64) -> Call {
    Call::new(Op::QSol { price }, vec![("authority!", auth), ("instance+", q_instance())])
}
pub fn q_prices(auth: Pubkey, chain: u16, native: u64, gas: u64) -> Call {
    Call::new(Op::QPrices { native, gas }, vec![("authority!", auth), ("instance", q_instance()), ("registered_chain+", q_chain(chain).0)])
}
pub fn q_params(auth: Pubkey, chain: u16, max: u64, base: u64) -> Call {
    Call::new(Op::QParams { max, base }, vec![("authority!", auth), ("instance", q_instance()), ("registered_chain+", q_chain(chain).0)])
}
pub fn q_req(payer: Pubkey, chain: u16, prog: Pubkey, item: Pubkey, dropoff: u64, max_fee: u64) -> Call {
    Call::new(
        Op::QReq { dropoff, max_fee },
        vec![
            ("payer!+", payer),
            ("instance", q_instance()),
            ("registered_chain", q_chain(chain).0),
            ("registered_ntt", q_ntt(&prog).0),
            ("outbox_item", item),
            ("relay_request+", q_request(&item)),
            ("system_program", SYSTEM),
        ],
    )
}
pub fn q_close(auth: Pubkey, fee: Pubkey, item: Pubkey) -> Call {
    Call::new(
        Op::QClose,
        vec![("authority!", auth), ("instance", q_instance()), ("fee_recipient+", fee), ("relay_request+", q_request(&item)), ("system_program", SYSTEM)],
    )
}

pub fn governance(payer: Pubkey, vaa: Pubkey, program: Pubkey, replay: Pubkey, extra: Vec<AccountMeta>) -> Call {
    let mut c = Call::new(
        Op::Gov,
        vec![("payer!+", payer), ("governance+", gov()), ("vaa", vaa), ("program", program), ("replay+", replay), ("system_program", SYSTEM)],
    );
    c.extra = extra;
    c
}
